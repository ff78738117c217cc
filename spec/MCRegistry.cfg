SPECIFICATION Spec
CONSTANTS
  MaxDefined = 2
INVARIANTS
  NamesAreUnique
  EachFoundByItsNames
  NothingElseFound
  GroupsPartition
  FiltersSplit
  AddsExactlyItself
CHECK_DEADLOCK FALSE
