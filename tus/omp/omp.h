// declarations used by the library, for lowering with -fopenmp without the OpenMP runtime headers
#ifndef VT_OMP_H
#define VT_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
#endif
