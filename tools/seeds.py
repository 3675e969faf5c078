#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in tools/seedtable.py: the patch is produced by editing a scratch
copy of /repo's HEAD, the demonstration is a small program built against /repo/_build/libcrocoddyl.so.
  seeds.py            regenerate every seed
  seeds.py ID...      regenerate these
  seeds.py --try ID   regenerate, then in a scratch copy of /repo (/tmp/seedtry, with a build of its own): demo on the
                      clean tree, patch, build, tests, demo, check
"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedtable import SEEDS

REPO = os.environ.get("VERIF_REPO", "/repo")
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(TOP, "seeded")
DEMO = r'''#!/bin/bash
# exit 0: the property holds in /repo as built; nonzero: it does not
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=c++14 -O1 -w %s-DCROCODDYL_WITH_IPOPT -I"$R/_build/include" -I"$R/include" -isystem /usr/include/eigen3 \
  -isystem /usr/include/coin-or -isystem /usr/include/coin "$D/demo.cpp" -o "$T/demo" \
  -L"$R/_build" -lcrocoddyl -Wl,-rpath,"$R/_build" -lboost_serialization -lboost_filesystem -lboost_system -lpthread || exit 3
cd "$T" && timeout 120 ./demo
'''
PRE = '''#include <cmath>
#include <cstdio>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;
'''

# demonstrations of the multibody part bring a stand-in for pinocchio along and instantiate everything themselves
MBPRE = PRE + '''#include "crocoddyl/core/macros.hpp"
#undef CROCODDYL_DECLARE_EXTERN_TEMPLATE_CLASS
#undef CROCODDYL_DECLARE_EXTERN_TEMPLATE_STRUCT
#undef CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_CLASS
#undef CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_STRUCT
#define CROCODDYL_DECLARE_EXTERN_TEMPLATE_CLASS(x)
#define CROCODDYL_DECLARE_EXTERN_TEMPLATE_STRUCT(x)
#define CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_CLASS(x)
#define CROCODDYL_DECLARE_FLOATINGPOINT_EXTERN_TEMPLATE_STRUCT(x)
#include "crocoddyl/multibody/states/multibody.hpp"
template class crocoddyl::StateMultibodyTpl<double>;
template class crocoddyl::StateMultibodyTpl<float>;
namespace pin = pinocchio;
typedef Eigen::Vector3d V3;
inline Eigen::Matrix3d turn(double x, double y, double z) {
  return (Eigen::AngleAxisd(z, V3::UnitZ()) * Eigen::AngleAxisd(y, V3::UnitY()) * Eigen::AngleAxisd(x, V3::UnitX())).toRotationMatrix();
}
inline pin::SE3 at(double x, double y, double z, double a = 0, double b = 0, double c = 0) { return pin::SE3(turn(a, b, c), V3(x, y, z)); }
inline pin::InertiaTpl<double> body(double m, double x, double y, double z) {
  return pin::InertiaTpl<double>{m, V3(x, y, z), Eigen::Matrix3d(Eigen::Matrix3d::Identity() * 0.05 + Eigen::Matrix3d::Ones() * 0.01)};
}
// 4-joint arm, or a floating base with two legs; the frames are "tip" and "mid"
inline std::shared_ptr<pin::Model> robot(bool floating) {
  auto m = std::make_shared<pin::Model>();
  pin::JointIndex j1, j2, j3;
  if (floating) {
    auto b = m->addJoint(0, pin::FREE_FLYER, 0, pin::SE3::Identity(), "root_joint", body(4., 0.02, 0.03, -0.05));
    j1 = m->addJoint(b, pin::REVOLUTE, 0, at(0.1, 0.25, -0.1, 0.1, 0.2, -0.1), "left", body(0.8, 0.03, 0.01, -0.15));
    j2 = m->addJoint(b, pin::REVOLUTE, 1, at(-0.1, -0.22, -0.12, -0.2, 0.1, 0.15), "right", body(0.9, -0.02, 0.02, -0.12));
    j3 = m->addJoint(j2, pin::REVOLUTE, 1, at(0.02, -0.03, -0.25, 0.1, 0.1, -0.2), "knee", body(0.5, 0.01, 0.02, -0.1));
  } else {
    j1 = m->addJoint(0, pin::REVOLUTE, 1, at(0.1, -0.2, 0.3, 0.2, 0.1, -0.4), "shoulder", body(1.5, 0.05, 0.02, 0.1));
    j2 = m->addJoint(j1, pin::REVOLUTE, 2, at(0.3, 0.1, 0.2, -0.5, 0.3, 0.2), "elbow", body(1.1, 0.1, -0.04, 0.03));
    j2 = m->addJoint(j2, pin::PRISMATIC, 0, at(0.2, 0.05, -0.1, 0.3, -0.2, 0.6), "slide", body(0.7, 0.02, 0.06, -0.05));
    j3 = m->addJoint(j2, pin::REVOLUTE, 0, at(0.15, 0.1, 0.05, 0.1, 0.5, 0.2), "wrist", body(0.4, 0.03, 0.02, 0.04));
  }
  m->addFrame("mid", j1, at(0.05, 0.02, -0.3, 0.2, -0.1, 0.4));
  m->addFrame("tip", j3, at(0.2, -0.1, 0.15, 0.3, -0.6, 0.2));
  m->lowerPositionLimit = Vec::Constant(m->nq, -3.), m->upperPositionLimit = Vec::Constant(m->nq, 3.);
  m->velocityLimit = Vec::Constant(m->nv, 7.), m->effortLimit = Vec::Constant(m->nv, 11.);
  return m;
}
inline Vec point(const std::shared_ptr<crocoddyl::StateMultibody>& s, int k = 0) {
  Vec dx(s->get_ndx()), y(s->get_nx());
  for (long i = 0; i < dx.size(); ++i) dx[i] = 0.7 * std::sin(1.3 * i + 0.9 * k + 0.4);
  s->integrate(s->zero(), dx, y);
  return y;
}
template <class F>
Mat differences(const std::shared_ptr<crocoddyl::StateMultibody>& s, const Vec& x, F f) {
  Mat J;
  const double h = 1e-5;
  for (long i = 0; i < (long)s->get_ndx(); ++i) {
    Vec d = Vec::Zero(s->get_ndx()), a(x.size()), b(x.size());
    d[i] = h;
    s->integrate(x, d, a), s->integrate(x, Vec(-d), b);
    const Vec p = f(a), n = f(b);
    if (!i) J.resize(p.size(), s->get_ndx());
    J.col(i) = (p - n) / (2 * h);
  }
  return J;
}
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def gen(ident):
    s = SEEDS[ident]
    d = os.path.join(OUT, ident)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        assert sh("git -C %s archive HEAD src include | tar -x -C %s && cd %s && git init -q && git add -A && "
                  "git -c user.name=a -c user.email=a@a commit -qm a" % (REPO, w, w)).returncode == 0
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                raise SystemExit("%s: %d occurrences in %s of %r" % (ident, t.count(old), f, old))
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % w).stdout)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "demo.cpp"), "w").write((MBPRE if s.get("mb") else PRE) + s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (s.get("flags", "") + ('-I"$D/pin" ' if s.get("mb") else "")))
    if s.get("mb"):
        shutil.rmtree(os.path.join(d, "pin"), ignore_errors=True)
        shutil.copytree(os.path.join(TOP, "harness/mini"), os.path.join(d, "pin"))
        shutil.copytree(os.path.join(TOP, "harness/stubs/pinocchio"), os.path.join(d, "pin/pinocchio"), dirs_exist_ok=True)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", d)


S = "/tmp/seedtry"


def scratch():
    """a clone of /repo at S with its own build folder, made from a copy of the build recipe"""
    if not os.path.isdir(S):
        assert sh("git clone -q %s %s && mkdir %s.b && cp -r /opt/vp/harness %s.b/h && sed -i 's#/repo#%s#g' "
                  "%s.b/h/CMakeLists.txt && CC=gcc CXX=g++ cmake -S %s.b/h -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Release"
                  % (REPO, S, S, S, S, S, S, S)).returncode == 0
    sh("cd %s && git checkout -q -- . && git pull -q --ff-only" % S)
    r = sh("ninja -C %s/_build" % S)
    assert r.returncode == 0, r.stdout[-2000:]


def attempt(ident):
    d = os.path.join(OUT, ident)
    r = sh("cd %s && bash %s/demo.sh" % (S, d))
    print("clean demo:", r.returncode, r.stdout[-600:], flush=True)
    if r.returncode:
        return
    try:
        r = sh("git -C %s apply %s/patch.diff && ninja -C %s/_build" % (S, d, S))
        print("build:", r.returncode, r.stdout[-1500:] if r.returncode else "", flush=True)
        if r.returncode:
            return
        for t in ("test_boxqp", "test_controls"):
            r = sh("cd %s/_build && ./%s" % (S, t))
            print(t, r.returncode, flush=True)
        r = sh("cd %s && bash %s/demo.sh" % (S, d))
        print("patched demo:", r.returncode, r.stdout[-600:], flush=True)
        r = sh("cd %s && VERIF_REPO=%s VERIF_BUILD=%s.v python3 tools/run.py %s" % (TOP, S, S, SEEDS[ident]["property"]))
        print("check:", r.returncode, r.stdout[-900:], flush=True)
    finally:
        sh("git -C %s checkout -- ." % S)


if __name__ == "__main__":
    a = sys.argv[1:]
    go = "--try" in a
    a = [x for x in a if x != "--try"] or list(SEEDS)
    for i in a:
        gen(i)
    if go:
        scratch()
        for i in a:
            print("==", i)
            attempt(i)
        shutil.rmtree(S)
        shutil.rmtree(S + ".b")
        shutil.rmtree(S + ".v", ignore_errors=True)
