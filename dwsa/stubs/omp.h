#pragma once
int omp_get_thread_num(void); int omp_get_max_threads(void); int omp_get_num_threads(void);
