// Stand-in for PFFFT (https://bitbucket.org/jpommier/pffft), which /repo needs
// and this sandbox does not have. Same interface, same documented behaviour:
// single precision, unscaled transforms, ordered layout
//   [re(0), re(N/2), re(1), im(1), re(2), im(2), ...]
// and an internal ("z-domain") layout that differs from the ordered one, so a
// caller that skips pffft_zreorder computes nonsense, as with the real library.
// Only the real transform is provided.
#ifndef VERIF_STANDIN_PFFFT_H_
#define VERIF_STANDIN_PFFFT_H_
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct PFFFT_Setup PFFFT_Setup;
typedef enum { PFFFT_FORWARD, PFFFT_BACKWARD } pffft_direction_t;
typedef enum { PFFFT_REAL, PFFFT_COMPLEX } pffft_transform_t;
PFFFT_Setup* pffft_new_setup(int N, pffft_transform_t transform);
void pffft_destroy_setup(PFFFT_Setup*);
void pffft_transform(PFFFT_Setup* setup, const float* input, float* output,
                     float* work, pffft_direction_t direction);
void pffft_transform_ordered(PFFFT_Setup* setup, const float* input,
                             float* output, float* work,
                             pffft_direction_t direction);
void pffft_zreorder(PFFFT_Setup* setup, const float* input, float* output,
                    pffft_direction_t direction);
void* pffft_aligned_malloc(size_t nb_bytes);
void pffft_aligned_free(void*);
int pffft_simd_size();
#ifdef __cplusplus
}
#endif
#endif
