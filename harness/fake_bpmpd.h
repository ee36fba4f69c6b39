#pragma once
struct FakeBpmpd
{
  static constexpr long CAP = 60000;
  struct Arr
  {
    long size;
    double v[CAP];
  };
  int code;
  double base;
  long requests;
  int m, n, nz, qn, qnz;
  Arr acolcnt, acolidx, acolnzs, qcolcnt, qcolidx, qcolnzs, rhs, obj, lbound, ubound;
};
