// -include'd into the schedule-exploring variant: the checker chooses the number of property-checking workers
#include "driver.h"
extern "C" int chk_consumers;
#define kECConsumerCount chk_consumers
