#include "cuda_stub.h"
