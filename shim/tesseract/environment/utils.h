#pragma once
#include <tesseract/environment/environment.h>
