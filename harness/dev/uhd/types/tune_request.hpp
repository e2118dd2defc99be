#pragma once
#include <uhd/usrp/multi_usrp.hpp>
