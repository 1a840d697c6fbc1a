SPECIFICATION Spec
INVARIANTS FieldsAreRight ToldApart NamesAreCards
CHECK_DEADLOCK FALSE
