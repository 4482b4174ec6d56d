/* The headers as C sees them: every function that they declare is called through its C declaration. */
#include <stddef.h>
#include "gmatlib.h"
#ifdef WITH_GEQSLIB
#include "geqslib.h"
#endif

/* Fills a rows x cols matrix with 1, 2, 3..., and returns the number of the first call that misbehaves, or 0. */
int c_matrices(unsigned rows, unsigned cols)
{
    unsigned i, j;
    int fault = 0;
    double last = (double)rows * cols;
    void *a = new_double_matrix(rows, cols), *t, *p, *g, *s, *c, *n;
    for (i = 0; i < rows; i++)
        for (j = 0; j < cols; j++)
            if (index_mut_double_matrix(a, i, j, (double)(i * cols + j + 1)) == 0) fault = 1;
    if (index_mut_double_matrix(a, rows, 0, 1.0) != 0) fault = 2;
    t = transpose(a);
    if (t == NULL || index_double_matrix(t, cols - 1, rows - 1) != last || index_double_matrix(t, cols - 1, 0) != cols) fault = 3;
    p = multiply_matrix(a, t);
    if (p == NULL || (rows > 1 && index_double_matrix(p, 0, rows - 1) != index_double_matrix(p, rows - 1, 0))) fault = 4;
    if (rows != cols && multiply_matrix(a, a) != NULL) fault = 5;
    g = augment_with(a, a);
    if (g == NULL || index_double_matrix(g, rows - 1, 2 * cols - 1) != last) fault = 6;
    if (rows != cols && augment_with(a, t) != NULL) fault = 7;
    s = subset(g, 0, cols, rows - 1, 2 * cols - 1);
    if (s == NULL || index_double_matrix(s, rows - 1, cols - 1) != last || index_double_matrix(s, 0, 0) != 1.0) fault = 8;
    if (subset(g, 0, 0, rows, 0) != NULL) fault = 9;
    c = clone_double_matrix(a);
    if (inplace_scale(c, 2.0) == 0 || index_double_matrix(a, 0, 0) != 1.0 || index_double_matrix(c, 0, 0) != 2.0) fault = 10;
    if (inplace_row_scale(c, rows - 1, 0.5) == 0 || index_double_matrix(c, rows - 1, cols - 1) != last) fault = 11;
    if (inplace_row_scale(c, rows, 0.5) != 0) fault = 12;
    if (rows > 1)
    {
        /* row 0 of c is still doubled, the last row is as in a */
        if (inplace_row_add(c, 0, rows - 1) == 0 || index_double_matrix(c, 0, cols - 1) != 2.0 * cols + last) fault = 13;
        if (inplace_scaled_row_add(c, 0, rows - 1, -1.0) == 0 || index_double_matrix(c, 0, cols - 1) != 2.0 * cols) fault = 14;
        if (index_double_matrix(c, rows - 1, cols - 1) != last) fault = 15;
    }
    n = new_double_identity_matrix(rows);
    if (trace(n) != (double)rows || index_double_matrix(n, rows - 1, 0) != (rows == 1 ? 1.0 : 0.0)) fault = 16;
    if (rows != cols && trace(a) == trace(a)) fault = 17;
    if (try_inplace_invert(n) != (unsigned)Ok || index_double_matrix(n, rows - 1, rows - 1) != 1.0) fault = 18;
    if (rows != cols && try_inplace_invert(a) != (unsigned)UnknownGmatlibError) fault = 19;
    if (inplace_scale(n, 0.0) == 0) fault = 20;
    switch (try_inplace_invert(n))
    {
    case SingularValueWasZero: if (rows != 1) fault = 21; break;
    case DeterminantWasZero: if (rows < 2 || rows > 4) fault = 22; break;
    case ZeroDuringInversion: if (rows < 5) fault = 23; break;
    default: fault = 24;
    }
    free_double_matrix(a); free_double_matrix(t); free_double_matrix(p); free_double_matrix(g);
    free_double_matrix(s); free_double_matrix(c); free_double_matrix(n);
    return fault;
}

#ifdef WITH_GEQSLIB
#include <stdlib.h>
#include <string.h>

/* Solves x = value (of the constant k) and a system of two through the C declarations. */
int c_equations(double value)
{
    int fault = 0;
    double got;
    const char *text;
    char *copy;
    const void *system;
    void *ctx = new_default_context_hash_map(), *empty = new_context_hash_map(), *builder;
    add_const_to_ctx(ctx, "k", value);
    text = solve_equation("x + 1 = k + sin(0) + 1", ctx, 0.5, -1e9, 1e9, 1e-6, 100);
    if (text == NULL || strncmp(text, "x=", 2) != 0) return 1;
    got = atof(text + 2);
    if (got - value > 1e-5 || value - got > 1e-5) fault = 2;
    free_solution_string((char *)text);
    if (solve_equation("x = k", empty, 0.5, -1e9, 1e9, 1e-6, 100) != NULL) fault = 3; /* two unknowns */
    if (solve_equation("x = 1 +", ctx, 0.5, -1e9, 1e9, 1e-6, 100) != NULL) fault = 4;
    if (new_system_builder("x + y", ctx) != NULL) fault = 5;
    builder = (void *)new_system_builder("x + y = k", ctx);
    if (builder == NULL) return 6;
    if (is_fully_constrained(builder) != 0 || build_system(builder) != NULL) fault = 7;
    if (try_constrain_with(builder, "a + b = 1") != NotConstrained) fault = 8;
    if (try_constrain_with(builder, "x - = 1") != ConstraintError) fault = 9;
    if (try_constrain_with(builder, "x - y = 1") != Constrained || is_fully_constrained(builder) != 1) fault = 10;
    if (try_constrain_with(builder, "x - 2*y = 1") != 2) fault = 11;
    system = build_system(builder);
    free_system_builder(builder);
    free_context_hash_map(ctx);
    free_context_hash_map(empty);
    if (system == NULL) return 12;
    if (specify_variable((void *)system, "x", 2.0, -1e9, 1e9) != 1) fault = 13;
    if (specify_variable((void *)system, "z", 2.0, -1e9, 1e9) != -1) fault = 14;
    text = solve_system((void *)system, 1e-6, 100);
    if (text == NULL) return 15;
    copy = strstr(text, "x=");
    if (copy == NULL || strstr(text, "y=") == NULL) return 16;
    got = 2.0 * atof(copy + 2) - (value + 1.0);
    if (got > 1e-5 || got < -1e-5) fault = 17;
    free_solution_string((char *)text);
    return fault;
}
#endif
