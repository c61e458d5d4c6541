// -include'd into the schedule-exploring variant where the number of workers has to be a constant: two instead of eight
#include "driver.h"
#define kECConsumerCount 2
