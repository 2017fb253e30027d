/* Stand-in for the OSQP 0.6 interface: same types, functions, status and error codes and
   argument validation, the answer of osqp_solve is decided by the harness (osqp_stub.hpp).
   Only the behaviour documented by OSQP is modelled; no line of it comes from OSQP. */
#ifndef VERIF_OSQP_H
#define VERIF_OSQP_H
#include <stdlib.h>
#ifdef __cplusplus
extern "C"
{
#endif
    typedef long long c_int;
    typedef double c_float;

#define OSQP_DUAL_INFEASIBLE_INACCURATE (4)
#define OSQP_PRIMAL_INFEASIBLE_INACCURATE (3)
#define OSQP_SOLVED_INACCURATE (2)
#define OSQP_SOLVED (1)
#define OSQP_MAX_ITER_REACHED (-2)
#define OSQP_PRIMAL_INFEASIBLE (-3)
#define OSQP_DUAL_INFEASIBLE (-4)
#define OSQP_SIGINT (-5)
#define OSQP_TIME_LIMIT_REACHED (-6)
#define OSQP_NON_CVX (-7)
#define OSQP_UNSOLVED (-10)
#define OSQP_INFTY ((c_float)1e30)
#define OSQP_NULL 0

    enum osqp_error_type
    {
        OSQP_DATA_VALIDATION_ERROR = 1,
        OSQP_SETTINGS_VALIDATION_ERROR,
        OSQP_LINSYS_SOLVER_LOAD_ERROR,
        OSQP_LINSYS_SOLVER_INIT_ERROR,
        OSQP_NONCVX_ERROR,
        OSQP_MEM_ALLOC_ERROR,
        OSQP_WORKSPACE_NOT_INIT_ERROR,
    };

    typedef struct
    {
        c_int nzmax, m, n;
        c_int *p, *i;
        c_float *x;
        c_int nz;
    } csc;

    typedef struct
    {
        c_int n, m;
        csc *P, *A;
        c_float *q, *l, *u;
    } OSQPData;

    typedef struct
    {
        c_float rho, sigma;
        c_int scaling;
        c_int adaptive_rho, adaptive_rho_interval;
        c_float adaptive_rho_tolerance, adaptive_rho_fraction;
        c_int max_iter;
        c_float eps_abs, eps_rel, eps_prim_inf, eps_dual_inf, alpha;
        int linsys_solver;
        c_float delta;
        c_int polish, polish_refine_iter, verbose, scaled_termination, check_termination, warm_start;
        c_float time_limit;
    } OSQPSettings;

    typedef struct
    {
        c_float *x, *y;
    } OSQPSolution;

    typedef struct
    {
        c_int iter;
        char status[32];
        c_int status_val, status_polish;
        c_float obj_val, pri_res, dua_res, setup_time, solve_time, update_time, polish_time, run_time;
        c_int rho_updates;
        c_float rho_estimate;
    } OSQPInfo;

    typedef struct
    {
        OSQPData *data;
        c_float *x, *z, *y;
        OSQPSettings *settings;
        OSQPSolution *solution;
        OSQPInfo *info;
        int warm_given;
    } OSQPWorkspace;

    void *c_malloc(size_t);
    void *c_calloc(size_t, size_t);
    void *c_realloc(void *, size_t);
    void c_free(void *);
    csc *csc_spalloc(c_int m, c_int n, c_int nzmax, c_int values, c_int triplet);
    void csc_spfree(csc *A);
    csc *csc_matrix(c_int m, c_int n, c_int nzmax, c_float *x, c_int *i, c_int *p);

    void osqp_set_default_settings(OSQPSettings *settings);
    c_int osqp_setup(OSQPWorkspace **workp, const OSQPData *data, const OSQPSettings *settings);
    c_int osqp_solve(OSQPWorkspace *work);
    c_int osqp_cleanup(OSQPWorkspace *work);
    c_int osqp_warm_start(OSQPWorkspace *work, const c_float *x, const c_float *y);
    c_int osqp_warm_start_x(OSQPWorkspace *work, const c_float *x);
    c_int osqp_warm_start_y(OSQPWorkspace *work, const c_float *y);
    c_int osqp_update_warm_start(OSQPWorkspace *work, c_int v);
    c_int osqp_update_lin_cost(OSQPWorkspace *work, const c_float *q);
    c_int osqp_update_bounds(OSQPWorkspace *work, const c_float *l, const c_float *u);
    c_int osqp_update_lower_bound(OSQPWorkspace *work, const c_float *l);
    c_int osqp_update_upper_bound(OSQPWorkspace *work, const c_float *u);
    c_int osqp_update_P(OSQPWorkspace *work, const c_float *x, const c_int *idx, c_int n);
    c_int osqp_update_A(OSQPWorkspace *work, const c_float *x, const c_int *idx, c_int n);
    c_int osqp_update_rho(OSQPWorkspace *work, c_float v);
    c_int osqp_update_max_iter(OSQPWorkspace *work, c_int v);
    c_int osqp_update_eps_abs(OSQPWorkspace *work, c_float v);
    c_int osqp_update_eps_rel(OSQPWorkspace *work, c_float v);
    c_int osqp_update_eps_prim_inf(OSQPWorkspace *work, c_float v);
    c_int osqp_update_eps_dual_inf(OSQPWorkspace *work, c_float v);
    c_int osqp_update_alpha(OSQPWorkspace *work, c_float v);
    c_int osqp_update_polish(OSQPWorkspace *work, c_int v);
    c_int osqp_update_verbose(OSQPWorkspace *work, c_int v);
    c_int osqp_update_time_limit(OSQPWorkspace *work, c_float v);
    const char *osqp_version(void);
#ifdef __cplusplus
}
#endif
#endif
