#include <sup/dto/model.h>
