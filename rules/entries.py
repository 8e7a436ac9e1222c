"""Public entry points, by role (names from armci.h / message.h)."""
PUTS = ["PARMCI_Put", "PARMCI_PutS", "PARMCI_PutV", "PARMCI_PutValueInt", "PARMCI_PutValueLong", "PARMCI_PutValueFloat",
        "PARMCI_PutValueDouble", "PARMCI_Put_flag", "PARMCI_PutS_flag"]
# value operations with a handle complete before returning: their source is the callee's own stack
NBVALUE = ["PARMCI_NbPutValueInt", "PARMCI_NbPutValueLong", "PARMCI_NbPutValueFloat", "PARMCI_NbPutValueDouble"]
GETS = ["PARMCI_Get", "PARMCI_GetS", "PARMCI_GetV", "PARMCI_GetValueInt", "PARMCI_GetValueLong", "PARMCI_GetValueFloat",
        "PARMCI_GetValueDouble"]
ACCS = ["PARMCI_Acc", "PARMCI_AccS", "PARMCI_AccV"]
RMW = ["PARMCI_Rmw"]
NB = ["PARMCI_NbPut", "PARMCI_NbGet", "PARMCI_NbAcc", "PARMCI_NbPutS", "PARMCI_NbGetS", "PARMCI_NbAccS", "PARMCI_NbPutV",
      "PARMCI_NbGetV", "PARMCI_NbAccV"]
BLOCKING = PUTS + GETS + ACCS + RMW
MUTEX = ["PARMCI_Create_mutexes", "PARMCI_Destroy_mutexes", "PARMCI_Lock", "PARMCI_Unlock"]
