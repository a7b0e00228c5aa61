#pragma once
#include "Rtypes.h"
class TEventList;
