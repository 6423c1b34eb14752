SPECIFICATION TSpec
INVARIANT HandlesDistinct
