------------------------------- MODULE Copies --------------------------------
(***************************************************************************)
(* Tables copied while they are in use (C30).  tabs is a sequence of       *)
(* tables, each a state of Table.tla; a copy is one more table in the very *)
(* state its original is in, and from then on a table of its own: a call   *)
(* changes the table it is made to and nothing else.                       *)
(***************************************************************************)
EXTENDS Table

CopyTable(tabs, o) == Append(tabs, tabs[o])
CallTable(tabs, o, z) == [tabs EXCEPT ![o] = z]
=============================================================================
