#include "objscip/objscip.h"
