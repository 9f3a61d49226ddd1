#include "petscsys.h"
