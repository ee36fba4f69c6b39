// Stand-in for osqp-eigen 0.10: see OsqpEigen.h
#pragma once
#include <osqp.h>
namespace OsqpEigen
{
class Settings
{
  OSQPSettings s_{};

public:
  Settings() { resetDefaultSettings(); }
  void resetDefaultSettings() { osqp_set_default_settings(&s_); }
  void setRho(double v) { s_.rho = v; }
  void setSigma(double v) { s_.sigma = v; }
  void setScaling(int v) { s_.scaling = v; }
  void setAdaptiveRho(bool v) { s_.adaptive_rho = v; }
  void setAdaptiveRhoInterval(int v) { s_.adaptive_rho_interval = v; }
  void setMaxIteration(int v) { s_.max_iter = v; }
  void setAbsoluteTolerance(double v) { s_.eps_abs = v; }
  void setRelativeTolerance(double v) { s_.eps_rel = v; }
  void setPrimalInfeasibilityTolerance(double v) { s_.eps_prim_inf = v; }
  void setDualInfeasibilityTolerance(double v) { s_.eps_dual_inf = v; }
  void setAlpha(double v) { s_.alpha = v; }
  void setDelta(double v) { s_.delta = v; }
  void setPolish(bool v) { s_.polishing = v; }
  void setPolishRefineIter(int v) { s_.polish_refine_iter = v; }
  void setVerbosity(bool v) { s_.verbose = v; }
  void setScaledTerimination(bool v) { s_.scaled_termination = v; }
  void setCheckTermination(int v) { s_.check_termination = v; }
  void setCheckDualGap(bool v) { s_.check_dualgap = v; }
  void setWarmStart(bool v) { s_.warm_starting = v; }
  void setTimeLimit(double v) { s_.time_limit = v; }
  OSQPSettings* getSettings() { return &s_; }
  const OSQPSettings* getSettings() const { return &s_; }
};
}  // namespace OsqpEigen
