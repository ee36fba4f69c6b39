#pragma once
#include <tesseract/collision/types.h>
namespace tesseract::collision
{
class DiscreteContactManager;
class ContinuousContactManager;
}
