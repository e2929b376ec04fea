#pragma once
#include "client.h"
