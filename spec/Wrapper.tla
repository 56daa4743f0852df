------------------------------- MODULE Wrapper -------------------------------
(***************************************************************************)
(* The Python module.  It adds nothing to the C API and takes nothing from *)
(* it: each of its functions stands for one function of the C API, and     *)
(* what it does to a system is what that function does to it.  The rules   *)
(* of translation are few:                                                 *)
(*   code    the return code is the answer                                 *)
(*   value   the answer is what the C function wrote; any return code but  *)
(*           success becomes a RuntimeError                                *)
(*   done    nothing is answered; other codes become a RuntimeError        *)
(*   ok      as done, but success may be answered with its code            *)
(*   truth   as value, as a truth value                                    *)
(*   handle  a handle of the same object; none is a RuntimeError           *)
(*   maybe   a handle of the same object, or None                          *)
(* A list of the wrong length is a ValueError, a list of something else    *)
(* than numbers a TypeError, and neither of them touches the system.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Codes == {"SetVerbosity", "SetLogFile", "SetLogLevel", "Log", "Init", "Init_NoIC", "Close", "SetWaveKin", "SaveVTK", "SaveBodyVTK",
          "UseBodyVTK", "SaveRodVTK", "SavePointVTK", "SaveLineVTK"}
Values == {"NCoupledDOF", "Step", "ExternalWaveKinGetN", "GetWaveKinCoordinates", "GetNumberBodies", "GetNumberRods", "GetNumberPoints",
           "GetNumberLines", "GetFASTtens", "Serialize", "GetWavesKin", "GetDepthAt", "GetAverageDepth", "GetMinDepth",
           "GetBodyID", "GetBodyType", "GetBodyState", "GetBodyPos", "GetBodyAngle", "GetBodyVel", "GetBodyAngVel", "GetBodyForce",
           "GetBodyM", "GetRodID", "GetRodType", "GetRodForce", "GetRodM", "GetRodN", "GetRodNodePos", "GetRodNodeVel",
           "GetPointID", "GetPointType", "GetPointPos", "GetPointVel", "GetPointForce", "GetPointM", "GetPointNAttached",
           "GetPointAttached", "GetLineID", "GetLineN", "GetLineUnstretchedLength", "GetLineConstantEA",
           "GetLineNodePos", "GetLineNodeVel", "GetLineNodeForce", "GetLineNodeTen", "GetLineNodeBendStiff", "GetLineNodeWeight",
           "GetLineNodeDrag", "GetLineNodeFroudeKrilov", "GetLineNodeSeabedForce", "GetLineNodeCurv", "GetLineNodeM",
           "GetLineFairTen", "GetLineMaxTen"}
Dones == {"Deserialize", "Save", "Load"}
Oks == {"ExternalWaveKinInit", "SetLineUnstretchedLength", "SetLineUnstretchedLengthVel", "SetLineConstantEA", "SetLinePressBend", "SetLinePressInt"}
Truths == {"IsLineConstantEA", "IsLinePressBend"}
Handles == {"GetWaves", "GetBody", "GetRod", "GetPoint", "GetLine"}
Maybes == {"GetSeafloor"}
Functions == Codes \cup Values \cup Dones \cup Oks \cup Truths \cup Handles \cup Maybes

(* names which differ from those of the C API *)
CName(f) == "MoorDyn_" \o (CASE f = "GetWaveKinCoordinates" -> "ExternalWaveKinGetCoordinates"
                             [] f = "SetWaveKin" -> "ExternalWaveKinSet"
                             [] OTHER -> f)

Nothing == [none |-> TRUE]
Raise(x) == [exc |-> x, v |-> Nothing]
Give(x) == [exc |-> "", v |-> x]

(* what Python has to answer, if the C function would answer c *)
Answer(f, c) ==
  CASE f \in Codes -> Give(c.ret)
    [] f \in Values -> IF c.ret = 0 THEN Give(c.v) ELSE Raise("RuntimeError")
    [] f \in Dones -> IF c.ret = 0 THEN Give(Nothing) ELSE Raise("RuntimeError")
    [] f \in Oks -> IF c.ret = 0 THEN Give(Nothing) ELSE Raise("RuntimeError")
    [] f \in Truths -> IF c.ret = 0 THEN Give([bool |-> c.v # 0]) ELSE Raise("RuntimeError")
    [] f \in Handles -> IF ToString(c.v) = ToString("null") THEN Raise("RuntimeError") ELSE Give(c.v)
    [] f \in Maybes -> IF ToString(c.v) = ToString("null") THEN Give(Nothing) ELSE Give(c.v)

(* lists which are refused before the C function is called *)
Refusal(shape) == CASE shape = "long" -> "ValueError" [] shape = "short" -> "ValueError" [] shape = "type" -> "TypeError"

(* names for numbers, as in the headers of the C API *)
Constants == [LEVEL_NONE |-> 4096, LEVEL_ERR |-> 3, LEVEL_WRN |-> 2, LEVEL_MSG |-> 1, LEVEL_DBG |-> 0,
  ERRCODE_SUCCESS |-> 0, ERRCODE_INVALID_INPUT_FILE |-> -1, ERRCODE_INVALID_OUTPUT_FILE |-> -2, ERRCODE_INVALID_INPUT |-> -3,
  ERRCODE_NAN_ERROR |-> -4, ERRCODE_MEM_ERROR |-> -5, ERRCODE_INVALID_VALUE |-> -6, ERRCODE_NON_IMPLEMENTED |-> -7,
  ERRCODE_UNHANDLED_ERROR |-> -255, BODY_TYPE_COUPLED |-> -1, BODY_TYPE_FREE |-> 0, BODY_TYPE_FIXED |-> 1,
  POINT_TYPE_COUPLED |-> -1, POINT_TYPE_FREE |-> 0, POINT_TYPE_FIXED |-> 1, ROD_TYPE_COUPLED |-> -2, ROD_TYPE_CPLDPIN |-> -1,
  ROD_TYPE_FREE |-> 0, ROD_TYPE_PINNED |-> 1, ROD_TYPE_FIXED |-> 2, ENDPOINT_A |-> 0, ENDPOINT_B |-> 1, ENDPOINT_BOTTOM |-> 0,
  ENDPOINT_TOP |-> 1]
=============================================================================
