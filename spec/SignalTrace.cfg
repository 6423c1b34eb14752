SPECIFICATION TSpec
VIEW View
ALIAS Where
