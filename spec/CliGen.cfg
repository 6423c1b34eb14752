SPECIFICATION Spec
CONSTANT Most = 3
