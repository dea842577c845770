#pragma once
#include "EtcImage.h"
