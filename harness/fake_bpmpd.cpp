// A stand-in for the BPMPD process: records what it is sent and answers what the harness tells it to.
#include <trajopt_common/macros.h>
#include "fake_bpmpd.h"
#include <trajopt_sco/bpmpd_io.hpp>
#include <cstdio>
#include <fcntl.h>
#include <sys/mman.h>

int main()
{
  int fd = open(getenv("TRAJOPT_VERIF_BPMPD_SHM"), O_RDWR);
  if (fd < 0)
    return 1;
  auto* sh = static_cast<FakeBpmpd*>(mmap(nullptr, sizeof(FakeBpmpd), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  if (sh == MAP_FAILED)
    return 1;
  while (true)
  {
    bpmpd_io::bpmpd_input bi;
    bpmpd_io::ser(STDIN_FILENO, bi, bpmpd_io::DESER);
    sh->m = bi.m; sh->n = bi.n; sh->nz = bi.nz; sh->qn = bi.qn; sh->qnz = bi.qnz;
    auto put = [&](auto& vec, FakeBpmpd::Arr& a) {
      a.size = static_cast<long>(vec.size());
      for (long i = 0; i < a.size && i < FakeBpmpd::CAP; ++i)
        a.v[i] = static_cast<double>(vec[static_cast<std::size_t>(i)]);
    };
    put(bi.acolcnt, sh->acolcnt); put(bi.acolidx, sh->acolidx); put(bi.acolnzs, sh->acolnzs);
    put(bi.qcolcnt, sh->qcolcnt); put(bi.qcolidx, sh->qcolidx); put(bi.qcolnzs, sh->qcolnzs);
    put(bi.rhs, sh->rhs); put(bi.obj, sh->obj); put(bi.lbound, sh->lbound); put(bi.ubound, sh->ubound);
    ++sh->requests;
    bpmpd_io::bpmpd_output bo;
    const auto k = static_cast<std::size_t>(bi.m + bi.n);
    bo.primal.resize(k);
    bo.dual.resize(k);
    bo.status.resize(k);
    for (std::size_t i = 0; i < k; ++i)
    {
      bo.primal[i] = sh->base + static_cast<double>(i);
      bo.dual[i] = -7;
    }
    bo.code = sh->code;
    bo.opt = 5;
    bpmpd_io::ser(STDOUT_FILENO, bo, bpmpd_io::SER);
  }
}
