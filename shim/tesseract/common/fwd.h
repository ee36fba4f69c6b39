#pragma once
#include <tesseract/common/eigen_types.h>
namespace tesseract::common
{
struct JointTrajectory;
struct JointState;
}
