------------------------------- MODULE Fortran -------------------------------
(***************************************************************************)
(* The Fortran module.  Each of its procedures stands for the function of  *)
(* the C API of the same name; it answers with the return code of that     *)
(* function, fills its arguments with what that function writes and does   *)
(* to a system what that function does to it.  Handles stand for the same  *)
(* objects.  Blanks at the end of a text do not belong to it.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Counts == {"NCoupledDOF", "ExternalWaveKinInit", "ExternalWaveKinGetN", "GetNumberBodies", "GetNumberRods", "GetNumberPoints", "GetNumberLines",
           "GetBodyID", "GetBodyType", "GetRodID", "GetRodType", "GetRodN", "GetRodNumberNodes", "GetPointID", "GetPointType",
           "GetPointNAttached", "GetLineID", "GetLineN", "GetLineNumberNodes", "IsLineConstantEA", "IsLinePressBend"}
Numbers == {"GetLineUnstretchedLength", "GetLineConstantEA", "GetLineFairTen", "GetLineMaxTen", "GetAverageDepth", "GetMinDepth",
            "GetDepthAt", "GetLineNodeCurv"}
Arrays == {"GetBodyState", "GetBodyPos", "GetBodyAngle", "GetBodyVel", "GetBodyAngVel", "GetBodyForce", "GetBodyM", "GetRodForce", "GetRodM",
           "GetRodNodePos", "GetRodNodeVel", "GetPointPos", "GetPointVel", "GetPointForce", "GetPointM", "GetLineNodePos", "GetLineNodeVel",
           "GetLineNodeForce", "GetLineNodeTen", "GetLineNodeBendStiff", "GetLineNodeWeight", "GetLineNodeDrag", "GetLineNodeFroudeKrilov",
           "GetLineNodeSeabedForce", "GetLineNodeM", "GetFASTtens", "GetWavesKin", "ExternalWaveKinGetCoordinates", "Step", "GetPointAttached"}
Deeds == {"SetVerbosity", "SetLogFile", "SetLogLevel", "Log", "Init", "Init_NoIC", "Close", "ExternalWaveKinSet", "Save", "Load", "SaveVTK",
          "SaveBodyVTK", "UseBodyVTK", "SaveRodVTK", "SavePointVTK", "SaveLineVTK", "SetLineUnstretchedLength",
          "SetLineUnstretchedLengthVel", "SetLineConstantEA", "SetLinePressBend", "SetLinePressInt"}
Handles == {"GetWaves", "GetSeafloor", "GetBody", "GetRod", "GetPoint", "GetLine"}
Procedures == Counts \cup Numbers \cup Arrays \cup Deeds \cup Handles

(* does the call write anything?  only what a successful call writes counts *)
Writes(f) == f \in Counts \cup Numbers \cup Arrays \cup Handles

(* names for numbers, as in the headers of the C API *)
Constants == [MD_SUCESS |-> 0, MD_INVALID_INPUT_FILE |-> -1, MD_INVALID_OUTPUT_FILE |-> -2, MD_INVALID_INPUT |-> -3, MD_NAN_ERROR |-> -4,
  MD_MEM_ERROR |-> -5, MD_INVALID_VALUE |-> -6, MD_NON_IMPLEMENTED |-> -7, MD_UNHANDLED_ERROR |-> -255, MD_ERR_LEVEL |-> 3,
  MD_WRN_LEVEL |-> 2, MD_MSG_LEVEL |-> 1, MD_DBG_LEVEL |-> 0, MD_NO_OUTPUT |-> 4096]
=============================================================================
