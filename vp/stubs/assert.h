// Replaces <assert.h> for the verified sources only: the expression is evaluated and a false
// assertion ends the program, as in the real build.
#undef assert
#ifndef VP_ASSERT_STUB
#define VP_ASSERT_STUB
void vp_repo_assert_failed(void);
#endif
#define assert(x)  ((x) ? (void)0 : vp_repo_assert_failed())
#ifndef __cplusplus
#undef static_assert
#define static_assert _Static_assert
#endif
