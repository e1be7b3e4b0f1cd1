/* Stand-ins of the policies: each records which one was called. */
static int called;
int lewi_Init(S *s) { called = 101; l_s = s; return result; }
int lewi_Finalize(S *s) { called = 102; l_s = s; return result; }
int lewi_EnableDLB(const S *s) { called = 103; l_s = s; return result; }
int lewi_DisableDLB(const S *s) { called = 104; l_s = s; return result; }
int lewi_SetMaxParallelism(const S *s, int k) { called = 105; l_s = s; return result; }
int lewi_UnsetMaxParallelism(const S *s) { called = 106; l_s = s; return result; }
int lewi_IntoBlockingCall(const S *s) { called = 107; l_s = s; return result; }
int lewi_OutOfBlockingCall(const S *s) { called = 108; l_s = s; return result; }
int lewi_Lend(const S *s) { called = 109; l_s = s; return result; }
int lewi_Reclaim(const S *s) { called = 110; l_s = s; return result; }
int lewi_Borrow(const S *s) { called = 111; l_s = s; return result; }
int lewi_BorrowCpus(const S *s, int k) { called = 112; l_s = s; return result; }
int lewi_async_Init(S *s) { called = 201; l_s = s; return result; }
int lewi_async_Finalize(S *s) { called = 202; l_s = s; return result; }
int lewi_async_Enable(const S *s) { called = 203; l_s = s; return result; }
int lewi_async_Disable(const S *s) { called = 204; l_s = s; return result; }
int lewi_async_IntoBlockingCall(const S *s) { called = 207; l_s = s; return result; }
int lewi_async_OutOfBlockingCall(const S *s) { called = 208; l_s = s; return result; }
int lewi_async_Lend(const S *s) { called = 209; l_s = s; return result; }
int lewi_async_LendCpus(const S *s, int k) { called = 210; l_s = s; return result; }
int lewi_async_Reclaim(const S *s) { called = 211; l_s = s; return result; }
int lewi_async_AcquireCpus(const S *s, int k) { called = 212; l_s = s; return result; }
int lewi_async_Borrow(const S *s) { called = 213; l_s = s; return result; }
int lewi_async_BorrowCpus(const S *s, int k) { called = 214; l_s = s; return result; }
int lewi_mask_Init(S *s) { called = 301; l_s = s; return result; }
int lewi_mask_Finalize(S *s) { called = 302; l_s = s; return result; }
int lewi_mask_EnableDLB(const S *s) { called = 303; l_s = s; return result; }
int lewi_mask_DisableDLB(const S *s) { called = 304; l_s = s; return result; }
int lewi_mask_SetMaxParallelism(const S *s, int k) { called = 305; l_s = s; return result; }
int lewi_mask_UnsetMaxParallelism(const S *s) { called = 306; l_s = s; return result; }
int lewi_mask_IntoBlockingCall(const S *s) { called = 307; l_s = s; return result; }
int lewi_mask_OutOfBlockingCall(const S *s) { called = 308; l_s = s; return result; }
int lewi_mask_Lend(const S *s) { called = 309; l_s = s; return result; }
int lewi_mask_LendCpu(const S *s, int k) { called = 310; l_s = s; return result; }
int lewi_mask_LendCpuMask(const S *s, const cpu_set_t *m) { called = 311; l_s = s; return result; }
int lewi_mask_Reclaim(const S *s) { called = 312; l_s = s; return result; }
int lewi_mask_ReclaimCpu(const S *s, int k) { called = 313; l_s = s; return result; }
int lewi_mask_ReclaimCpus(const S *s, int k) { called = 314; l_s = s; return result; }
int lewi_mask_ReclaimCpuMask(const S *s, const cpu_set_t *m) { called = 315; l_s = s; return result; }
int lewi_mask_AcquireCpu(const S *s, int k) { called = 316; l_s = s; return result; }
int lewi_mask_AcquireCpus(const S *s, int k) { called = 317; l_s = s; return result; }
int lewi_mask_AcquireCpuMask(const S *s, const cpu_set_t *m) { called = 318; l_s = s; return result; }
int lewi_mask_AcquireCpusInMask(const S *s, int k, const cpu_set_t *m) { called = 319; l_s = s; return result; }
int lewi_mask_Borrow(const S *s) { called = 320; l_s = s; return result; }
int lewi_mask_BorrowCpu(const S *s, int k) { called = 321; l_s = s; return result; }
int lewi_mask_BorrowCpus(const S *s, int k) { called = 322; l_s = s; return result; }
int lewi_mask_BorrowCpuMask(const S *s, const cpu_set_t *m) { called = 323; l_s = s; return result; }
int lewi_mask_BorrowCpusInMask(const S *s, int k, const cpu_set_t *m) { called = 324; l_s = s; return result; }
int lewi_mask_Return(const S *s) { called = 325; l_s = s; return result; }
int lewi_mask_ReturnCpu(const S *s, int k) { called = 326; l_s = s; return result; }
int lewi_mask_ReturnCpuMask(const S *s, const cpu_set_t *m) { called = 327; l_s = s; return result; }
int lewi_mask_CheckCpuAvailability(const S *s, int k) { called = 328; l_s = s; return result; }
int lewi_mask_UpdateOwnership(const S *s, const cpu_set_t *m) { called = 329; l_s = s; return result; }
