#include "osqp_stub.hpp"
#include <cmath>
#include <cstring>
#include <limits>

namespace stub
{
    State &state()
    {
        static State s;
        return s;
    }
    static int &counter()
    {
        static int c = 0;
        return c;
    }
}
using namespace stub;

extern "C"
{
    void *c_malloc(size_t n)
    {
        state().live_blocks++;
        return malloc(n);
    }
    void *c_calloc(size_t n, size_t m)
    {
        state().live_blocks++;
        return calloc(n, m);
    }
    void *c_realloc(void *p, size_t n) { return realloc(p, n); }
    void c_free(void *p)
    {
        if (p)
            state().live_blocks--;
        free(p);
    }

    csc *csc_spalloc(c_int m, c_int n, c_int nzmax, c_int values, c_int triplet)
    {
        csc *A = (csc *)c_calloc(1, sizeof(csc));
        A->m = m;
        A->n = n;
        A->nzmax = nzmax = nzmax > 1 ? nzmax : 1;
        A->nz = triplet ? 0 : -1;
        A->p = (c_int *)c_malloc((triplet ? nzmax : n + 1) * sizeof(c_int));
        A->i = (c_int *)c_malloc(nzmax * sizeof(c_int));
        A->x = values ? (c_float *)c_malloc(nzmax * sizeof(c_float)) : nullptr;
        return A;
    }
    void csc_spfree(csc *A)
    {
        if (!A)
            return;
        c_free(A->p);
        c_free(A->i);
        c_free(A->x);
        c_free(A);
    }
    csc *csc_matrix(c_int m, c_int n, c_int nzmax, c_float *x, c_int *i, c_int *p)
    {
        csc *A = (csc *)c_malloc(sizeof(csc));
        A->m = m;
        A->n = n;
        A->nz = -1;
        A->nzmax = nzmax;
        A->x = x;
        A->i = i;
        A->p = p;
        return A;
    }

    void osqp_set_default_settings(OSQPSettings *s)
    {
        memset(s, 0, sizeof *s);
        s->rho = 0.1;
        s->sigma = 1e-6;
        s->scaling = 10;
        s->adaptive_rho = 1;
        s->adaptive_rho_interval = 0;
        s->adaptive_rho_tolerance = 5;
        s->adaptive_rho_fraction = 0.4;
        s->max_iter = 4000;
        s->eps_abs = 1e-3;
        s->eps_rel = 1e-3;
        s->eps_prim_inf = 1e-4;
        s->eps_dual_inf = 1e-4;
        s->alpha = 1.6;
        s->linsys_solver = 0;
        s->delta = 1e-6;
        s->polish = 0;
        s->polish_refine_iter = 3;
        s->verbose = 1;
        s->scaled_termination = 0;
        s->check_termination = 25;
        s->warm_start = 1;
        s->time_limit = 0;
    }

    static bool refuse(const char *why)
    {
        state().refused++;
        state().refusal = why;
        return false;
    }
    static bool goodcsc(const csc *M, c_int rows, c_int cols, bool upper)
    {
        if (!M->p || !M->i || (!M->x && M->nzmax > 0) || M->m != rows || M->n != cols)
            return refuse("matrix dimensions");
        if (M->p[0] != 0)
            return refuse("column pointers");
        for (c_int j = 0; j < cols; j++)
        {
            if (M->p[j + 1] < M->p[j] || M->p[j + 1] > M->nzmax)
                return refuse("column pointers");
            for (c_int k = M->p[j]; k < M->p[j + 1]; k++)
            {
                if (M->i[k] < 0 || M->i[k] >= rows)
                    return refuse("row index");
                if (upper && M->i[k] > j)
                    return refuse("P is not upper triangular");
            }
        }
        return true;
    }
    static bool gooddata(const OSQPData *d)
    {
        if (!d || !d->P || !d->A || !d->q)
            return refuse("missing data");
        if (d->n <= 0 || d->m < 0)
            return refuse("dimensions");
        if (!goodcsc(d->P, d->n, d->n, true) || !goodcsc(d->A, d->m, d->n, false))
            return false;
        for (c_int j = 0; j < d->m; j++)
            if (d->l[j] > d->u[j])
                return refuse("lower bound greater than the upper one");
        return true;
    }
    static bool goodsettings(const OSQPSettings *s)
    {
        if (!s)
            return refuse("missing settings");
        if (s->scaling < 0 || s->rho <= 0 || s->sigma <= 0 || s->delta <= 0 || s->max_iter <= 0)
            return refuse("settings");
        if ((s->adaptive_rho != 0 && s->adaptive_rho != 1) || s->adaptive_rho_interval < 0 || s->adaptive_rho_fraction <= 0 || s->adaptive_rho_tolerance < 1)
            return refuse("adaptive_rho");
        if ((s->polish != 0 && s->polish != 1) || s->polish_refine_iter < 0)
            return refuse("polish");
        if (s->eps_abs < 0 || s->eps_rel < 0 || (s->eps_abs == 0 && s->eps_rel == 0) || s->eps_prim_inf <= 0 || s->eps_dual_inf <= 0)
            return refuse("tolerances");
        if (s->alpha <= 0 || s->alpha >= 2)
            return refuse("alpha");
        if ((s->verbose != 0 && s->verbose != 1) || (s->scaled_termination != 0 && s->scaled_termination != 1) || s->check_termination < 0 || (s->warm_start != 0 && s->warm_start != 1))
            return refuse("flags");
        if (s->time_limit < 0)
            return refuse("time_limit");
        return true;
    }

    static csc *copy(const csc *M)
    {
        csc *C = csc_spalloc(M->m, M->n, M->p[M->n], 1, 0);
        memcpy(C->p, M->p, (M->n + 1) * sizeof(c_int));
        if (M->p[M->n])
        {
            memcpy(C->i, M->i, M->p[M->n] * sizeof(c_int));
            memcpy(C->x, M->x, M->p[M->n] * sizeof(c_float));
        }
        return C;
    }
    static c_float *copyv(const c_float *v, c_int n)
    {
        c_float *r = (c_float *)c_malloc((n ? n : 1) * sizeof(c_float));
        if (n)
            memcpy(r, v, n * sizeof(c_float));
        return r;
    }
    static MatrixXd dense(const csc *M, bool sym)
    {
        MatrixXd D = MatrixXd::Zero(M->m, M->n);
        for (c_int j = 0; j < M->n; j++)
            for (c_int k = M->p[j]; k < M->p[j + 1]; k++)
            {
                D(M->i[k], j) += M->x[k];
                if (sym && M->i[k] != j)
                    D(j, M->i[k]) += M->x[k];
            }
        return D;
    }
    static Call describe(const OSQPWorkspace *w)
    {
        Call c;
        if (state().keep_matrices)
        {
            c.P = dense(w->data->P, true);
            c.A = dense(w->data->A, false);
        }
        c.q = Eigen::Map<const VectorXd>(w->data->q, w->data->n);
        c.l = Eigen::Map<const VectorXd>(w->data->l, w->data->m);
        c.u = Eigen::Map<const VectorXd>(w->data->u, w->data->m);
        c.Pp.assign(w->data->P->p, w->data->P->p + w->data->n + 1);
        c.Pi.assign(w->data->P->i, w->data->P->i + c.Pp.back());
        c.Ap.assign(w->data->A->p, w->data->A->p + w->data->n + 1);
        c.Ai.assign(w->data->A->i, w->data->A->i + c.Ap.back());
        c.set = *w->settings;
        // warm_start off: the solver resets its iterates before it starts
        c.warm = w->warm_given && w->settings->warm_start;
        if (c.warm)
        {
            c.wx = Eigen::Map<const VectorXd>(w->x, w->data->n);
            c.wy = Eigen::Map<const VectorXd>(w->y, w->data->m);
        }
        c.id = counter()++;
        return c;
    }

    c_int osqp_setup(OSQPWorkspace **workp, const OSQPData *data, const OSQPSettings *settings)
    {
        state().setups++;
        if (!gooddata(data))
            return OSQP_DATA_VALIDATION_ERROR;
        if (!goodsettings(settings))
            return OSQP_SETTINGS_VALIDATION_ERROR;
        OSQPWorkspace *w = (OSQPWorkspace *)c_calloc(1, sizeof(OSQPWorkspace));
        *workp = w;
        state().live_ws++;
        w->data = (OSQPData *)c_malloc(sizeof(OSQPData));
        w->data->n = data->n;
        w->data->m = data->m;
        w->data->P = copy(data->P);
        w->data->A = copy(data->A);
        w->data->q = copyv(data->q, data->n);
        w->data->l = copyv(data->l, data->m);
        w->data->u = copyv(data->u, data->m);
        w->settings = (OSQPSettings *)c_malloc(sizeof(OSQPSettings));
        *w->settings = *settings;
        if (state().setup)
        {
            int r = state().setup(describe(w));
            if (r)
                return r; // e.g. the factorization failed: the workspace exists, not its solution
        }
        w->x = (c_float *)c_calloc(data->n, sizeof(c_float));
        w->y = (c_float *)c_calloc(data->m ? data->m : 1, sizeof(c_float));
        w->solution = (OSQPSolution *)c_calloc(1, sizeof(OSQPSolution));
        w->solution->x = (c_float *)c_calloc(data->n, sizeof(c_float));
        w->solution->y = (c_float *)c_calloc(data->m ? data->m : 1, sizeof(c_float));
        w->info = (OSQPInfo *)c_calloc(1, sizeof(OSQPInfo));
        w->info->status_val = OSQP_UNSOLVED;
        strcpy(w->info->status, "unsolved");
        return 0;
    }

    c_int osqp_solve(OSQPWorkspace *w)
    {
        if (!w)
            return OSQP_WORKSPACE_NOT_INIT_ERROR;
        state().solves++;
        Answer a;
        if (state().solve)
            a = state().solve(describe(w));
        w->info->status_val = a.status;
        w->info->obj_val = a.obj;
        c_int n = w->data->n, m = w->data->m;
        const double nan = std::numeric_limits<double>::quiet_NaN();
        bool none = a.status == OSQP_PRIMAL_INFEASIBLE || a.status == OSQP_PRIMAL_INFEASIBLE_INACCURATE || a.status == OSQP_DUAL_INFEASIBLE ||
                    a.status == OSQP_DUAL_INFEASIBLE_INACCURATE || a.status == OSQP_NON_CVX;
        bool stored = a.status != OSQP_SIGINT && a.status != OSQP_UNSOLVED;
        if (none)
        {
            for (c_int i = 0; i < n; i++)
                w->solution->x[i] = nan;
            for (c_int i = 0; i < m; i++)
                w->solution->y[i] = nan;
            w->info->obj_val = a.status == OSQP_NON_CVX ? nan : (a.status == OSQP_PRIMAL_INFEASIBLE || a.status == OSQP_PRIMAL_INFEASIBLE_INACCURATE) ? OSQP_INFTY : -OSQP_INFTY;
        }
        else if (stored)
        {
            for (c_int i = 0; i < n; i++)
                w->solution->x[i] = i < a.x.size() ? a.x[i] : 0;
            for (c_int i = 0; i < m; i++)
                w->solution->y[i] = i < a.y.size() ? a.y[i] : 0;
        }
        if (a.status == OSQP_SIGINT && !a.ret)
            a.ret = 1;
        return a.ret;
    }

    c_int osqp_cleanup(OSQPWorkspace *w)
    {
        if (!w)
            return 0;
        state().live_ws--;
        csc_spfree(w->data->P);
        csc_spfree(w->data->A);
        c_free(w->data->q);
        c_free(w->data->l);
        c_free(w->data->u);
        c_free(w->data);
        c_free(w->settings);
        c_free(w->x);
        c_free(w->y);
        if (w->solution)
        {
            c_free(w->solution->x);
            c_free(w->solution->y);
            c_free(w->solution);
        }
        c_free(w->info);
        c_free(w);
        return 0;
    }

    c_int osqp_warm_start(OSQPWorkspace *w, const c_float *x, const c_float *y)
    {
        if (!w)
            return OSQP_WORKSPACE_NOT_INIT_ERROR;
        w->settings->warm_start = 1;
        w->warm_given = 1;
        memcpy(w->x, x, w->data->n * sizeof(c_float));
        if (w->data->m)
            memcpy(w->y, y, w->data->m * sizeof(c_float));
        return 0;
    }
    c_int osqp_warm_start_x(OSQPWorkspace *w, const c_float *x)
    {
        if (!w)
            return OSQP_WORKSPACE_NOT_INIT_ERROR;
        w->settings->warm_start = 1;
        w->warm_given = 1;
        memcpy(w->x, x, w->data->n * sizeof(c_float));
        return 0;
    }
    c_int osqp_warm_start_y(OSQPWorkspace *w, const c_float *y)
    {
        if (!w)
            return OSQP_WORKSPACE_NOT_INIT_ERROR;
        w->settings->warm_start = 1;
        w->warm_given = 1;
        if (w->data->m)
            memcpy(w->y, y, w->data->m * sizeof(c_float));
        return 0;
    }
    c_int osqp_update_warm_start(OSQPWorkspace *w, c_int v)
    {
        if (!w)
            return OSQP_WORKSPACE_NOT_INIT_ERROR;
        if (v != 0 && v != 1)
            return 1;
        w->settings->warm_start = v;
        return 0;
    }
    c_int osqp_update_lin_cost(OSQPWorkspace *w, const c_float *q)
    {
        if (!w)
            return OSQP_WORKSPACE_NOT_INIT_ERROR;
        memcpy(w->data->q, q, w->data->n * sizeof(c_float));
        return 0;
    }
    c_int osqp_update_bounds(OSQPWorkspace *w, const c_float *l, const c_float *u)
    {
        if (!w)
            return OSQP_WORKSPACE_NOT_INIT_ERROR;
        for (c_int i = 0; i < w->data->m; i++)
            if (l[i] > u[i])
                return 1;
        memcpy(w->data->l, l, w->data->m * sizeof(c_float));
        memcpy(w->data->u, u, w->data->m * sizeof(c_float));
        return 0;
    }
    c_int osqp_update_lower_bound(OSQPWorkspace *w, const c_float *l)
    {
        if (!w)
            return OSQP_WORKSPACE_NOT_INIT_ERROR;
        for (c_int i = 0; i < w->data->m; i++)
            if (l[i] > w->data->u[i])
                return 1;
        memcpy(w->data->l, l, w->data->m * sizeof(c_float));
        return 0;
    }
    c_int osqp_update_upper_bound(OSQPWorkspace *w, const c_float *u)
    {
        if (!w)
            return OSQP_WORKSPACE_NOT_INIT_ERROR;
        for (c_int i = 0; i < w->data->m; i++)
            if (w->data->l[i] > u[i])
                return 1;
        memcpy(w->data->u, u, w->data->m * sizeof(c_float));
        return 0;
    }
    static c_int values(csc *M, const c_float *x, const c_int *idx, c_int n)
    {
        c_int nnz = M->p[M->n];
        if (n > nnz)
            return 1;
        if (idx)
            for (c_int k = 0; k < n; k++)
                M->x[idx[k]] = x[k];
        else
            memcpy(M->x, x, nnz * sizeof(c_float));
        return 0;
    }
    c_int osqp_update_P(OSQPWorkspace *w, const c_float *x, const c_int *idx, c_int n) { return w ? values(w->data->P, x, idx, n) : 7; }
    c_int osqp_update_A(OSQPWorkspace *w, const c_float *x, const c_int *idx, c_int n) { return w ? values(w->data->A, x, idx, n) : 7; }
#define UPD(name, type, field, bad)                   \
    c_int osqp_update_##name(OSQPWorkspace *w, type v) \
    {                                                  \
        if (!w)                                        \
            return OSQP_WORKSPACE_NOT_INIT_ERROR;      \
        if (bad)                                       \
            return 1;                                  \
        w->settings->field = v;                        \
        return 0;                                      \
    }
    UPD(rho, c_float, rho, v <= 0)
    UPD(max_iter, c_int, max_iter, v <= 0)
    UPD(eps_abs, c_float, eps_abs, v < 0)
    UPD(eps_rel, c_float, eps_rel, v < 0)
    UPD(eps_prim_inf, c_float, eps_prim_inf, v < 0)
    UPD(eps_dual_inf, c_float, eps_dual_inf, v < 0)
    UPD(alpha, c_float, alpha, v <= 0 || v >= 2)
    UPD(polish, c_int, polish, v != 0 && v != 1)
    UPD(verbose, c_int, verbose, v != 0 && v != 1)
    UPD(time_limit, c_float, time_limit, v < 0)
    const char *osqp_version(void) { return "0.6.2"; }
}
