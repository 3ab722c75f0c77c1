// a small model program for the demonstrations: call-backs chosen by the environment variable SC, setup file as argument
#define _GNU_SOURCE
#include "mdoodz.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static struct { int xbc, fam, free_T_surf, crazy, usevel, usedens, usegs, usex, usenoise, useporo, usestress, useaniso, usedefgrad, adjust, usedual, useP, fixT, pin; int repeat; char input[512]; char dirs[8][512]; int ndirs; int stackfill; double qxbot; char set[128]; } sc;

// ------------------------------------------------------------------ scenario callbacks: pure functions of the input
static double Lx(MdoodzInput *in) { return in->model.xmax - in->model.xmin; }
static double Lz(MdoodzInput *in) { return in->model.zmax - in->model.zmin; }
static int SetPhase(MdoodzInput *in, Coordinates c) {
  const double L = in->scaling.L, r = in->model.user1 / L;
  const double x0 = in->model.user3 / L, z0 = in->model.user4 / L;
  const double dx = c.x - x0, dz = (c.z - z0) * 1.3;
  if (sc.fam == 0) {
    if (dx * dx + dz * dz < r * r) return 1;
    if (in->model.Nb_phases > 2 && c.z < in->model.zmin + 0.3 * Lz(in) + 0.05 * Lx(in) * sin(3.0 * c.x / Lx(in))) return 2;
    return 0;
  }
  // lithosphere: 0 seed, 1 crust, 2 mantle lithosphere, 3 asthenosphere
  const double moho = -in->model.user5 / L, lab = -in->model.user6 / L;
  if (dx * dx + dz * dz < r * r) return 0;
  if (c.z > moho) return 1;
  if (c.z > lab) return 2;
  return 3;
}
static int SetDualPhase(MdoodzInput *in, Coordinates c, int phase) {
  int d = phase;
  if (cos(6.0 * 2.0 * M_PI * c.x / Lx(in)) * sin(6.0 * 2.0 * M_PI * c.z / Lz(in)) > 0.0 && phase == 0) d += in->model.Nb_phases;
  return d;
}
static double SetTemperature(MdoodzInput *in, Coordinates c) {
  const double T = in->scaling.T;
  const double T0 = (in->model.user0 + zeroC) / T;
  if (sc.fam == 0) {
    const double s = 0.2 * Lx(in), dx = c.x - 0.1 * Lx(in), dz = c.z + 0.07 * Lz(in);
    return T0 + in->model.user7 / T * exp(-(dx * dx + dz * dz) / (s * s));
  }
  const double Ts = zeroC / T, Tm = (in->model.user7 + zeroC) / T;
  const double lab = in->model.user6 / in->scaling.L;
  double t = Ts + (Tm - Ts) / lab * (-c.z);
  if (t > Tm) t = Tm;
  if (t < Ts) t = Ts;
  return t;
}
static double SetGrainSize(MdoodzInput *in, Coordinates c, int phase) { return in->materials.gs_ref[phase] * (1.0 + 0.3 * sin(7.0 * c.x / Lx(in) + 2.0 * c.z / Lz(in))); }
static double SetDensity(MdoodzInput *in, Coordinates c, int phase) { return in->materials.rho[phase]; }
static double SetX(MdoodzInput *in, Coordinates c, int phase) { const double s = 0.25 * Lx(in); return exp(-(c.x * c.x + c.z * c.z) / (s * s)); }
static double SetVx(MdoodzInput *in, Coordinates c) { return -c.x * in->model.bkg_strain_rate; }
static double SetVz(MdoodzInput *in, Coordinates c) { return c.z * in->model.bkg_strain_rate; }
static double SetNoise(MdoodzInput *in, Coordinates c, int phase) { double v = sin(12.9898 * c.x / Lx(in) * 40 + 78.233 * c.z / Lz(in) * 40) * 43758.5453; return v - floor(v); }
static double SetPorosity(MdoodzInput *in, Coordinates c, int phase) { return phase == 1 ? 0.02 : 0.0; }
static double SetPressure(MdoodzInput *in, Coordinates c, int phase) { return in->model.bkg_pressure; }
static double SetTxx(MdoodzInput *in, Coordinates c, int phase) { return in->model.preload_sxxd; }
static double SetTzz(MdoodzInput *in, Coordinates c, int phase) { return in->model.preload_szzd; }
static double SetTxz(MdoodzInput *in, Coordinates c, int phase) { return in->model.preload_sxz; }
static double SetAniso(MdoodzInput *in, Coordinates c, int phase, double p) { return (30.0 + 50.0 * sin(4.0 * c.x / Lx(in))) * M_PI / 180.0; }
static Tensor2D SetF(MdoodzInput *in, Coordinates c, int phase) { Tensor2D F = {.xx = 1.1, .zz = 1.0 / 1.1, .xz = 0.15, .zx = 0.0}; return F; }
static int Adjust(MdoodzInput *in, Coordinates c, double T, int phase) {
  if (phase == 2 && T > 0.93 * (in->model.user7 + zeroC) / in->scaling.T) return 3;
  return phase;
}
static double SurfZ(MdoodzInput *in, double x) { const double L = in->scaling.L; return in->model.user8 / L + in->model.user2 / L * cos(2.0 * M_PI * x / Lx(in) + 0.4); }
static int SurfPhase(MdoodzInput *in, double x) { return in->model.surf_ised1; }
static SetBC BCT(MdoodzInput *in, POSITION p, Coordinates c, double T) {
  SetBC b; b.type = constant_heatflux; b.value = 0.0;
  if (sc.fam == 0) {
    if (in->model.shear_style == 1 && in->model.periodic_x) { if (p == W || p == E) { b.type = periodic_temperature; b.value = 0.0; } return b; }
    if (sc.free_T_surf && (p == N || p == S)) { b.type = constant_temperature; b.value = (in->model.user0 + zeroC) / in->scaling.T; }
    return b;
  }
  if (p == S) { b.type = constant_temperature; b.value = (in->model.user7 + zeroC) / in->scaling.T; }
  if (p == N || p == free_surface) { b.type = constant_temperature; b.value = zeroC / in->scaling.T; }
  return b;
}
static SetBC BCC(MdoodzInput *in, POSITION p, Coordinates c, double X) {
  SetBC b; b.type = constant_Xflux; b.value = 0.0;
  if (in->model.periodic_x && (p == W || p == E)) { b.type = periodic_X; return b; }
  if (p == S && sc.qxbot != 0.0) { b.value = sc.qxbot / in->scaling.V; return b; }      // m/s downwards
  if (sc.xbc == 1 && (p == S || p == N || p == free_surface)) { b.type = constant_X; b.value = p == S ? 0.8 : 0.2; }
  if (sc.xbc == 2 && (p == W || p == E)) { b.type = constant_X; b.value = p == W ? 0.1 : 0.9; }
  return b;
}
static char BCP(MdoodzInput *in, POSITION p) { return (p == NE || p == NW) ? 0 : -1; }
static double FixT(MdoodzInput *in, double P) { return (in->model.user0 + zeroC) / in->scaling.T; }
static void Mutate(MdoodzInput *in) {
  if (!sc.crazy) return;
  in->crazyConductivity = malloc(sizeof *in->crazyConductivity);
  in->crazyConductivity->phases = malloc(sizeof(int));
  in->crazyConductivity->phases[0] = in->model.Nb_phases > 3 ? 3 : 1;
  in->crazyConductivity->nPhases = 1;
  in->crazyConductivity->multiplier = 1000.0;
}

int main(int argc, char **argv) {
  char env[2000] = "", *t; if (getenv("SC")) strcpy(env, getenv("SC"));
  for (t = strtok(env, " "); t; t = strtok(0, " ")) {
    char *v = strchr(t, '='); if (!v) continue; *v++ = 0;
    if (0) ;
    else if (!strcmp(t, "fam")) sc.fam = atoi(v);
    else if (!strcmp(t, "xbc")) sc.xbc = atoi(v);
    else if (!strcmp(t, "qxbot")) sc.qxbot = atof(v);
    else if (!strcmp(t, "tbc")) sc.free_T_surf = atoi(v);
    else if (!strcmp(t, "crazy")) sc.crazy = atoi(v);
    else if (!strcmp(t, "usevel")) sc.usevel = atoi(v);
    else if (!strcmp(t, "usedens")) sc.usedens = atoi(v);
    else if (!strcmp(t, "usegs")) sc.usegs = atoi(v);
    else if (!strcmp(t, "usex")) sc.usex = atoi(v);
    else if (!strcmp(t, "usenoise")) sc.usenoise = atoi(v);
    else if (!strcmp(t, "useporo")) sc.useporo = atoi(v);
    else if (!strcmp(t, "usestress")) sc.usestress = atoi(v);
    else if (!strcmp(t, "useaniso")) sc.useaniso = atoi(v);
    else if (!strcmp(t, "usedefgrad")) sc.usedefgrad = atoi(v);
    else if (!strcmp(t, "adjust")) sc.adjust = atoi(v);
    else if (!strcmp(t, "usedual")) sc.usedual = atoi(v);
    else if (!strcmp(t, "useP")) sc.useP = atoi(v);
    else if (!strcmp(t, "pin")) sc.pin = atoi(v);
    else if (!strcmp(t, "fixT")) sc.fixT = atoi(v);
    else if (!strcmp(t, "stackfill")) sc.stackfill = atoi(v);
  }
  SetParticles_ff sp = {.SetPhase = SetPhase, .SetTemperature = SetTemperature};
  if (sc.usevel) { sp.SetHorizontalVelocity = SetVx; sp.SetVerticalVelocity = SetVz; }
  if (sc.usedens) sp.SetDensity = SetDensity;
  if (sc.usegs) sp.SetGrainSize = SetGrainSize;
  if (sc.usex) sp.SetXComponent = SetX;
  if (sc.usenoise) sp.SetNoise = SetNoise;
  if (sc.useporo) sp.SetPorosity = SetPorosity;
  if (sc.usestress) { sp.SetTxx = SetTxx; sp.SetTzz = SetTzz; sp.SetTxz = SetTxz; }
  if (sc.useaniso) sp.SetAnisoAngle = SetAniso;
  if (sc.usedefgrad) sp.SetDefGrad = SetF;
  if (sc.adjust) sp.AdjustPhaseToTemperature = Adjust;
  if (sc.usedual) sp.SetDualPhase = SetDualPhase;
  if (sc.useP) sp.SetPressure = SetPressure;
  SetBCs_ff bc = {.SetBCVx = SetPureOrSimpleShearBCVx, .SetBCVz = SetPureOrSimpleShearBCVz, .SetBCT = BCT, .SetBCC = BCC};
  if (sc.fam == 1 || sc.pin) bc.SetBCPType = BCP;
  if (sc.fixT) bc.FixTemperature = FixT;
  BuildInitialTopography_ff tp = {.SetSurfaceZCoord = SurfZ, .SetSurfacePhase = SurfPhase};
  MdoodzSetup setup = {.BuildInitialTopography = &tp, .SetParticles = &sp, .SetBCs = &bc, .MutateInput = Mutate};
  for (int r = 0; r < (getenv("REPEAT") ? atoi(getenv("REPEAT")) : 1); r++) { char in[512]; strcpy(in, argv[1]); RunMDOODZ(in, &setup); }
  return 0;
}
