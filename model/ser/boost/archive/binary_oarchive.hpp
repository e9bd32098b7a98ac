#include "boost/vf_archive.hpp"
