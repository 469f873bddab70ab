------------------------------ MODULE VJKinds ------------------------------
(* writes the texts of the kinds of VJFile for bin/vj/files.py             *)
EXTENDS VJFile
ASSUME JsonSerialize(IOEnv.VJ_OUT, Kinds)
=============================================================================
