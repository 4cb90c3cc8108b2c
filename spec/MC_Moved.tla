------------------------------ MODULE MC_Moved ------------------------------
(***************************************************************************)
(* Opening the file with every other checkpoint it holds, in every state   *)
(* MC_Chains reaches.                                                      *)
(***************************************************************************)
EXTENDS MC_Chains
=============================================================================
