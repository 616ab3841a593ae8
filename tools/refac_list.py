"""(name, properties whose checks look at it, [(file, old, new)])"""
P = 'geometry/polyhedron.py'
R = [
 ('add_ineq helper', ['C01', 'C05', 'C03'], [(P, """        S = self._selection_matrix(indices)

        # add inequalities
        self.A = np.vstack((self.A, A.dot(S)))
        self.b = np.concatenate((self.b, b))""", """        lhs, rhs = self._lift(A, b, indices)
        self.b = np.append(self.b, rhs)
        self.A = np.concatenate((self.A, lhs), axis=0)"""), (P, """    def _delete_attributes(self):""", """    def _lift(self, E, f, indices):
        return E.dot(self._selection_matrix(indices)), f

    def _delete_attributes(self):""")]),
 ('selection loop', ['C01', 'C05'], [(P, "        S = np.eye(n)[list(indices)]\n", """        S = np.zeros((len(indices), n))
        for row, column in enumerate(indices):
            S[row, column] = 1.
""")]),
 ('selection vstack', ['C01', 'C05'], [(P, "        S = np.eye(n)[list(indices)]\n", """        eye = np.eye(n)
        S = np.array([eye[i] for i in indices]).reshape(len(indices), n)
""")]),
 ('bounds inline', ['C01', 'C05'], [(P, """        S = self._selection_matrix(indices)
        self.add_inequality(-S, -x_min)""", """        identity = self._selection_matrix(indices)
        lhs = -1. * identity
        rhs = -1. * x_min
        self.add_inequality(lhs, rhs)""")]),
 ('init reorder', ['C01', 'C05', 'C03'], [(P, """        # inequalities
        self.A = A
        self.b = b
""", """        # inequalities
        self.b = b
        self.A = A
        self._delete_attributes()
""")]),
 ('normalize helper', ['C06', 'C05'], [(P, """        for i in range(self.A.shape[0]):
            r = np.linalg.norm(self.A[i])
            if r > tol:
                self.A[i] = self.A[i] / r
                self.b[i] = self.b[i] / r
""", """        for i, row in enumerate(self.A):
            r = np.sqrt(row.dot(row))
            if r <= tol:
                continue
            self.b[i] /= r
            self.A[i] /= r
""")]),
 ('normalize extracted', ['C06', 'C05'], [(P, """        for i in range(self.A.shape[0]):
            r = np.linalg.norm(self.A[i])
            if r > tol:
                self.A[i] = self.A[i] / r
                self.b[i] = self.b[i] / r
""", """        self._scale_rows(self.A, self.b, tol)
"""), (P, """    def _delete_attributes(self):""", """    @staticmethod
    def _scale_rows(E, f, tol):
        for i in range(E.shape[0]):
            r = np.linalg.norm(E[i])
            if r > tol:
                E[i] = E[i] / r
                f[i] = f[i] / r

    def _delete_attributes(self):""")]),
 ('normalize vectorized', ['C06', 'C05'], [(P, """        for i in range(self.A.shape[0]):
            r = np.linalg.norm(self.A[i])
            if r > tol:
                self.A[i] = self.A[i] / r
                self.b[i] = self.b[i] / r
""", """        r = np.linalg.norm(self.A, axis=1)
        scale = np.where(r > tol, r, 1.)
        self.A = self.A / scale[:, None]
        self.b = self.b / scale
""")]),
 ('facets comprehension', ['C09'], [(P, """            E_minimal = E[minimal_facets]
            f_relaxation = np.zeros(f.size)
            f_relaxation[i] += 1.
            f_relaxed = (f + f_relaxation)[minimal_facets]
""", """            E_minimal = E[minimal_facets]
            f_relaxed = np.array([f[j] + 1. if j == i else f[j] for j in minimal_facets])
""")]),
 ('facets copy', ['C09'], [(P, """            f_relaxation = np.zeros(f.size)
            f_relaxation[i] += 1.
            f_relaxed = (f + f_relaxation)[minimal_facets]
""", """            f_relaxed = f.astype(float)
            f_relaxed[i] += 1.
            f_relaxed = f_relaxed[minimal_facets]
""")]),
 ('facets order', ['C09'], [(P, """        # list of non-redundant facets
        minimal_facets = list(range(E.shape[0]))""", """        # list of non-redundant facets
        n_facets = E.shape[0]
        minimal_facets = [k for k in range(n_facets)]""")]),
 ('redundant early', ['C09', 'C05'], [(P, """        self.A = self.A[minimal_facets]
        self.b = self.b[minimal_facets]
""", """        A, b = self.A, self.b
        self.A, self.b = A[minimal_facets, :], b[minimal_facets]
""")]),
 ('remove_eq solve', ['C08', 'C09', 'C10'], [(P, """        E = self.A.dot(N)
        r = np.linalg.inv(self.C.dot(R)).dot(self.d)
        f = self.b - self.A.dot(R.dot(r))
""", """        particular = R.dot(np.linalg.solve(self.C.dot(R), self.d))
        f = self.b - self.A.dot(particular)
        E = np.dot(self.A, N)
""")]),
 ('empty lp', ['C07', 'C05'], [(P, """        H = np.eye(self.A.shape[1])
        f = np.zeros(self.A.shape[1])
        sol = quadratic_program(H, f, self.A, self.b, self.C, self.d)

        # if the solution is None the polyhedron is empty
        self._empty = sol['min'] is None
""", """        n = self.A.shape[1]
        sol = quadratic_program(np.identity(n), np.zeros(n), self.A, self.b, C=self.C, d=self.d)
        if sol['argmin'] is None:
            self._empty = True
        else:
            self._empty = False
""")]),
 ('contains loop', ['C02', 'C14'], [(P, """        # check inequalities
        in_ineq = np.all(self.A.dot(x) - self.b <= tol)""", """        # check inequalities
        in_ineq = not np.any(self.A.dot(x) > self.b + tol)""")]),
 ('contains early', ['C02', 'C14'], [(P, """        in_ineq = np.all(self.A.dot(x) - self.b <= tol)""", """        residual = self.A.dot(x) - self.b
        if (residual > tol).any():
            return False
        in_ineq = True""")]),
 ('contains zip', ['C02', 'C14'], [(P, """        in_ineq = np.all(self.A.dot(x) - self.b <= tol)""", """        in_ineq = all(a.dot(x) - bi <= tol for a, bi in zip(self.A, self.b))""")]),
 ('inclusion all', ['C04'], [(P, """        included = True
        for i in range(A2.shape[0]):
            sol = linear_program(-A2[i], P1.A, P1.b)
            if sol['min'] is None or -sol['min'] - b2[i] > tol:
                included = False
                break
        return included
""", """        for a, b in zip(A2, b2):
            sol = linear_program(-a, P1.A, P1.b)
            if sol['min'] is None:
                return False
            if -sol['min'] - b > tol:
                return False
        return True
""")]),
 ('inclusion helper', ['C04'], [(P, """        A1 = np.vstack((self.A, self.C, -self.C))
        b1 = np.concatenate((self.b, self.d, -self.d))
        P1 = Polyhedron(A1, b1)
        A2 = np.vstack((P2.A, P2.C, -P2.C))
        b2 = np.concatenate((P2.b, P2.d, -P2.d))
""", """        def halfspaces(P):
            return np.vstack((P.A, P.C, -P.C)), np.concatenate((P.b, P.d, -P.d))
        A2, b2 = halfspaces(P2)
        P1 = Polyhedron(*halfspaces(self))
""")]),
 ('intersection new', ['C03', 'C05'], [(P, """        P3 = copy(P2)
        P3.add_inequality(self.A, self.b)
        P3.add_equality(self.C, self.d)
""", """        P3 = Polyhedron(
            np.vstack((P2.A, self.A)),
            np.concatenate((P2.b, self.b)),
            np.vstack((P2.C, self.C)),
            np.concatenate((P2.d, self.d))
            )
""")]),
 ('cheb names', ['C08', 'C05'], [(P, """        A_row_norm = np.reshape(np.linalg.norm(A, axis=1), (A.shape[0], 1))
        A_lp = np.hstack((A, -A_row_norm))
        sol = linear_program(f_lp, A_lp, b)
        radius = sol['min']
        center = sol['argmin']
        if radius is not None:
            radius = -radius
            center = center[:-1]
""", """        norms = np.linalg.norm(A, axis=1)
        sol = linear_program(f_lp, np.column_stack((A, -norms)), b)
        if sol['min'] is None:
            return None, None
        radius = -sol['min']
        center = sol['argmin'][:A.shape[1]]
""")]),
 ('cheb argmin', ['C08', 'C05'], [(P, """            radius = -radius
            center = center[:-1]
""", """            radius = -center[-1]
            center = center[:-1]
""")]),
 ('project early', ['C10'], [(P, """        A, b, vertices = convex_hull_method(self.A, self.b, residual_dimensions)
        proj = Polyhedron(A, b)
        proj._vertices = vertices
        return proj
""", """        hull = convex_hull_method(self.A, self.b, residual_dimensions)
        proj = Polyhedron(hull[0], hull[1])
        proj._vertices = hull[2]
        return proj
""")]),
 ('chm columns', ['C10'], [(P, """    dropped_dimensions = [i for i in range(A.shape[1]) if i not in resiudal_dimensions]
    A = np.hstack((A[:, resiudal_dimensions], A[:, dropped_dimensions]))
""", """    dropped_dimensions = []
    for i in range(A.shape[1]):
        if i not in resiudal_dimensions:
            dropped_dimensions.append(i)
    A = np.concatenate((A[:, resiudal_dimensions], A[:, dropped_dimensions]), axis=1)
""")]),
 ('chm order', ['C10'], [(P, """    dropped_dimensions = [i for i in range(A.shape[1]) if i not in resiudal_dimensions]
    A = np.hstack((A[:, resiudal_dimensions], A[:, dropped_dimensions]))
""", """    dropped_dimensions = [i for i in range(A.shape[1]) if i not in resiudal_dimensions]
    order = list(resiudal_dimensions) + dropped_dimensions
    A = A[:, order]
""")]),
 ('two vertices', ['C10'], [(P, """    a = np.concatenate((np.ones(1), np.zeros(A.shape[1]-1)))
""", """    a = np.zeros(A.shape[1])
    a[0] = 1.
""")]),
 ('two vertices comprehension', ['C10'], [(P, """    vertices = []
    for f in [a, -a]:
        sol = linear_program(f, A, b)
        vertices.append(sol['argmin'][:n])
    return vertices
""", """    return [linear_program(f, A, b)['argmin'][:n] for f in (a, -a)]
""")]),
 ('simplex helper', ['C10'], [(P, """        f = np.concatenate((a, np.zeros(A.shape[1]-i)))
        sol = linear_program(f, A, b)
""", """        f = np.zeros(A.shape[1])
        f[:i] = a
        sol = linear_program(f, A, b)
""")]),
 ('expand while True', ['C10'], [(P, """            is_explored = any((np.allclose(a, a2) for a2 in a_explored))
            if not is_explored:
""", """            explored = [np.allclose(a, a2) for a2 in a_explored]
            if not any(explored):
""")]),
]
DT = 'dynamics/discrete_time_systems.py'
CT = 'control/controllers.py'
PP = 'optimization/parametric_programs.py'
NN = 'optimization/solvers/pnnls.py'
R += [
 ('simulate index', ['C14'], [(DT, """        for v in u:
            x.append(self.A.dot(x[-1]) + self.B.dot(v))
""", """        for t in range(len(u)):
            x_next = self.A.dot(x[t]) + self.B.dot(u[t])
            x.append(x_next)
""")]),
 ('simulate current', ['C14'], [(DT, """        for v in u:
            x.append(self.A.dot(x[-1]) + self.B.dot(v))
""", """        current = x0
        for v in u:
            current = np.dot(self.A, current) + np.dot(self.B, v)
            x += [current]
""")]),
 ('simulate step helper', ['C14'], [(DT, """        for v in u:
            x.append(self.A.dot(x[-1]) + self.B.dot(v) + self.c)
""", """        for v in u:
            x.append(self._step(x[-1], v))
"""), (DT, """class PieceWiseAffineSystem(object):""", """def _unused():
    return None

class PieceWiseAffineSystem(object):"""), (DT, """    def __init__(self, A, B, c):
""", """    def _step(self, x, u):
        return self.A.dot(x) + self.B.dot(u) + self.c

    def __init__(self, A, B, c):
""")]),
 ('closed loop gain', ['C14'], [(DT, """        for t in range(N):
            x.append((self.A + self.B.dot(K)).dot(x[-1]))
""", """        A_cl = self.A + self.B.dot(K)
        while len(x) < N + 1:
            x.append(A_cl.dot(x[-1]))
""")]),
 ('closed loop input', ['C14'], [(DT, """            x.append((self.A + self.B.dot(K)).dot(x[-1]))
""", """            u = K.dot(x[-1])
            x.append(self.A.dot(x[-1]) + self.B.dot(u))
""")]),
 ('pwa simulate', ['C14'], [(DT, """            else:
                S = self.affine_systems[mode]
                x.append(S.A.dot(x[t]) + S.B.dot(u[t]) + S.c)
                mode_sequence.append(mode)
""", """            mode_sequence.append(mode)
            S = self.affine_systems[mode]
            x.append(S.c + S.A.dot(x[t]) + S.B.dot(u[t]))
""")]),
 ('pwa zip', ['C14'], [(DT, """        for t in range(len(u)):
            mode = self.get_mode(x[t], u[t])
            if mode is None:
                raise ValueError('simulation reached an unfeasible point x = ' + str(x[t]) + ', u = ' + str(u[t]) + '.')
            else:
                S = self.affine_systems[mode]
                x.append(S.A.dot(x[t]) + S.B.dot(u[t]) + S.c)
                mode_sequence.append(mode)
""", """        for ut in u:
            xt = x[-1]
            mode = self.get_mode(xt, ut)
            if mode is None:
                raise ValueError('simulation reached an unfeasible point.')
            S = self.affine_systems[mode]
            x.append(S.A.dot(xt) + S.B.dot(ut) + S.c)
            mode_sequence.append(mode)
""")]),
 ('get_mode range', ['C14'], [(DT, """        for i, D in enumerate(self.domains):
            if D.contains(xu):
                return i
        return None
""", """        mode = None
        for i in range(len(self.domains)):
            if self.domains[i].contains(xu):
                mode = i
                break
        return mode
""")]),
 ('get_mode list', ['C14'], [(DT, """        for i, D in enumerate(self.domains):
            if D.contains(xu):
                return i
        return None
""", """        modes = [i for i, D in enumerate(self.domains) if D.contains(xu)]
        return modes[0] if modes else None
""")]),
 ('get_mode next', ['C14'], [(DT, """        for i, D in enumerate(self.domains):
            if D.contains(xu):
                return i
        return None
""", """        return next((i for i, D in enumerate(self.domains) if D.contains(xu)), None)
""")]),
 ('well posed combos', ['C19'], [(DT, """        for i, Di in enumerate(self.domains):
            for j in range(i+1, self.nm):
                Dij = Di.intersection(self.domains[j])
                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                    return False
        return True
""", """        n = len(self.domains)
        for i in range(n):
            for j in range(i):
                overlap = self.domains[i].intersection(self.domains[j])
                if overlap.empty:
                    continue
                radius = overlap.radius
                if radius is None or radius > tol:
                    return False
        return True
""")]),
 ('well posed helper', ['C19'], [(DT, """                Dij = Di.intersection(self.domains[j])
                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                    return False
""", """                if self._overlap(Di, self.domains[j], tol):
                    return False
"""), (DT, """    def is_well_posed(""", """    @staticmethod
    def _overlap(D1, D2, tol):
        D = D1.intersection(D2)
        if D.empty:
            return False
        return D.radius is None or D.radius > tol

    def is_well_posed(""")]),
 ('pwa ctor', ['C19'], [(DT, """        self.nx = list(nx)[0]
""", """        self.nx = nx.pop()
""")]),
 ('pwa ctor2', ['C19'], [(DT, """        for i, S in enumerate(affine_systems):
            if isinstance(S, LinearSystem):
                c = np.zeros(self.nx)
                affine_systems[i] = AffineSystem(S.A, S.B, c)
        self.affine_systems = affine_systems
""", """        self.affine_systems = [AffineSystem(S.A, S.B, np.zeros(self.nx)) if isinstance(S, LinearSystem) else S for S in affine_systems]
""")]),
 ('dare order', ['C17'], [(DT, """        K = - np.linalg.inv(self.B.T.dot(P).dot(self.B)+R).dot(self.B.T).dot(P).dot(self.A)
""", """        BtP = self.B.T.dot(P)
        K = -np.linalg.solve(R + BtP.dot(self.B), BtP.dot(self.A))
""")]),
 ('controllable loop', ['C17'], [(DT, """        R = np.hstack([np.linalg.matrix_power(self.A, i).dot(self.B) for i in range(self.nx)])
""", """        blocks = [self.B]
        for i in range(1, self.nx):
            blocks.append(self.A.dot(blocks[-1]))
        R = np.hstack(blocks)
""")]),
 ('mcais for', ['C18'], [(DT, """        for i in range(X.A.shape[0]):
            sol = linear_program(-J[i], O_inf.A, O_inf.b)
            residuals.append(- sol['min'] - X.b[i])
""", """        for i in range(X.A.shape[0]):
            J_i_max = -linear_program(-J[i], O_inf.A, O_inf.b)['min']
            residuals.append(J_i_max - X.b[i])
""")]),
 ('mcais comp', ['C18'], [(DT, """        residuals = []
        for i in range(X.A.shape[0]):
            sol = linear_program(-J[i], O_inf.A, O_inf.b)
            residuals.append(- sol['min'] - X.b[i])
""", """        residuals = [-linear_program(-J[i], O_inf.A, O_inf.b)['min'] - X.b[i] for i in range(X.A.shape[0])]
""")]),
 ('mcais while true', ['C18'], [(DT, """        if len(new_facets) == 0:
            convergence = True
        else:
""", """        convergence = len(new_facets) == 0
        if not convergence:
""")]),
 ('mcais power', ['C18'], [(DT, """    t = 1
    convergence = False
    while not convergence:
""", """    t = 1
    convergence = False
    A_t = A
    while not convergence:
"""), (DT, """        J = X.A.dot(np.linalg.matrix_power(A,t))
""", """        J = X.A.dot(A_t)
"""), (DT, """            t += 1
""", """            t += 1
            A_t = A_t.dot(A)
""")]),
 ('mcais method', ['C18'], [(DT, """        A_cl = self.A + self.B.dot(K)
        X_cl = Polyhedron(D.A[:,:self.nx] + D.A[:,self.nx:].dot(K), D.b)
        O_inf = mcais(A_cl, X_cl, **kwargs)
        return O_inf
""", """        D_x, D_u = D.A[:, :self.nx], D.A[:, self.nx:]
        return mcais(self.A + self.B.dot(K), Polyhedron(D_x + D_u.dot(K), D.b), **kwargs)
""")]),
 ('condense recursive', ['C15'], [(DT, """    A_bar = np.vstack([productory(A_sequence[i::-1]) for i in range(N)])
    A_bar = np.vstack((np.eye(nx), A_bar))
""", """    powers = [np.eye(nx)]
    for i in range(N):
        powers.append(A_sequence[i].dot(powers[-1]))
    A_bar = np.vstack(powers)
""")]),
 ('condense names', ['C15'], [(DT, """    A_sequence = [affine_systems[mode_sequence[i]].A for i in range(N)]
    B_sequence = [affine_systems[mode_sequence[i]].B for i in range(N)]
    c_sequence = [affine_systems[mode_sequence[i]].c for i in range(N)]
""", """    systems = [affine_systems[mode] for mode in mode_sequence]
    A_sequence = [S.A for S in systems]
    B_sequence = [S.B for S in systems]
    c_sequence = [S.c for S in systems]
""")]),
 ('condense offset list', ['C15'], [(DT, """    c_bar = np.concatenate((np.zeros(nx), c_sequence[0]))
    for i in range(1, N):
        offset_i = sum([productory(A_sequence[i:j:-1]).dot(c_sequence[j]) for j in range(i)]) + c_sequence[i]
        c_bar = np.concatenate((c_bar, offset_i))
""", """    offsets = [np.zeros(nx)]
    for i in range(N):
        offsets.append(A_sequence[i].dot(offsets[-1]) + c_sequence[i])
    c_bar = np.concatenate(offsets)
""")]),
 ('condense input if', ['C15'], [(DT, """    for i in range(N):
        for j in range(i):
            B_bar[nx*i:nx*(i+1), nu*j:nu*(j+1)] = productory(A_sequence[i:j:-1]).dot(B_sequence[j])
        B_bar[nx*i:nx*(i+1), nu*i:nu*(i+1)] = B_sequence[i]
""", """    for i in range(N):
        rows = slice(nx*i, nx*(i+1))
        B_bar[rows, nu*i:nu*(i+1)] = B_sequence[i]
        for j in range(i):
            B_bar[rows, nu*j:nu*(j+1)] = productory(A_sequence[i:j:-1]).dot(B_sequence[j])
""")]),
 ('productory reduce', ['C15'], [(DT, """    A = matrix_list[0]
    for B in matrix_list[1:]:
        A = A.dot(B)
    return A
""", """    result = matrix_list[0]
    for i in range(1, len(matrix_list)):
        result = np.dot(result, matrix_list[i])
    return result
""")]),
 ('from_continuous dict', ['C16'], [(DT, """        c = np.zeros(A.shape[0])
        if method == 'zero_order_hold':
            A_d, B_d, _ = zero_order_hold(A, B, c, h)
        elif method == 'explicit_euler':
            A_d, B_d, _ = explicit_euler(A, B, c, h)
        else:
            raise ValueError('unknown discretization method.')
        return LinearSystem(A_d, B_d)
""", """        if method not in ('zero_order_hold', 'explicit_euler'):
            raise ValueError('unknown discretization method.')
        discretize = zero_order_hold if method == 'zero_order_hold' else explicit_euler
        A_d, B_d = discretize(A, B, np.zeros(A.shape[0]), h)[:2]
        return LinearSystem(A_d, B_d)
""")]),
 ('ocp helper', ['C20'], [(CT, """    Q_bar = block_diag(*[Q for i in range(N)] + [P])
    R_bar = block_diag(*[R for i in range(N)])
""", """    Q_bar = block_diag(*([Q] * N + [P]))
    R_bar = block_diag(*([R] * N))
""")]) ,
 ('ocp products', ['C20'], [(CT, """    H['uu'] = R_bar + B_bar.T.dot(Q_bar).dot(B_bar)
    H['ux'] = B_bar.T.dot(Q_bar).dot(A_bar)
    H['xx'] = A_bar.T.dot(Q_bar).dot(A_bar)
""", """    QB, QA = Q_bar.dot(B_bar), Q_bar.dot(A_bar)
    H['uu'] = B_bar.T.dot(QB) + R_bar
    H['ux'] = B_bar.T.dot(QA)
    H['xx'] = A_bar.T.dot(QA)
""")]),
 ('ocp kron', ['C20'], [(CT, """    R_bar = block_diag(*[R for i in range(N)])
""", """    R_bar = np.kron(np.eye(N), R)
""")]),
 ('mpc split', ['C20'], [(CT, """        u_feedforward = [sol['argmin'][self.S.nu*i : self.S.nu*(i+1)] for i in range(self.N)]
        V = sol['min']
        return u_feedforward, V
""", """        u_feedforward = []
        for t in range(self.N):
            start = t * self.S.nu
            u_feedforward.append(sol['argmin'][start:start + self.S.nu])
        return u_feedforward, sol['min']
""")]),
 ('mpc split reshape', ['C20'], [(CT, """        u_feedforward = [sol['argmin'][self.S.nu*i : self.S.nu*(i+1)] for i in range(self.N)]
""", """        u_feedforward = list(sol['argmin'].reshape(self.N, self.S.nu))
""")]),
 ('mpc np.split', ['C20'], [(CT, """        u_feedforward = [sol['argmin'][self.S.nu*i : self.S.nu*(i+1)] for i in range(self.N)]
""", """        u_feedforward = np.split(sol['argmin'], self.N)
""")]),
 ('explicit ff', ['C21'], [(CT, """        u = self.explicit_solution.u(x)
        if u is not None:
            u = [u[t*self.S.nu:(t+1)*self.S.nu] for t in range(self.N)]
        return u, self.explicit_solution.V(x)
""", """        u_bar = self.explicit_solution.u(x)
        V = self.explicit_solution.V(x)
        if u_bar is None:
            return None, V
        nu = self.S.nu
        return [u_bar[nu*t:nu*t+nu] for t in range(self.N)], V
""")]),
 ('bigM dyn', ['C22'], [(CT, """                    f = A_i[k]
                    sol = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
                    alpha_ij.append(sol['min'] + S_i.c[k])
                    sol = linear_program(-f, D_j.A, D_j.b, D_j.C, D_j.d)
                    beta_ij.append(- sol['min'] + S_i.c[k])
""", """                    lower = linear_program(A_i[k], D_j.A, D_j.b, D_j.C, D_j.d)['min']
                    upper = -linear_program(-A_i[k], D_j.A, D_j.b, D_j.C, D_j.d)['min']
                    alpha_ij.append(lower + S_i.c[k])
                    beta_ij.append(upper + S_i.c[k])
""")]),
 ('bigM dom comp', ['C22'], [(CT, """                gamma_ij = []
                for k in range(D_i.A.shape[0]):
                    f = -D_i.A[k]
                    sol = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
                    gamma_ij.append(- sol['min'] - D_i.b[k])
                gamma_i.append(np.vstack(gamma_ij))
""", """                gamma_i.append(np.vstack([
                    -linear_program(-a, D_j.A, D_j.b, D_j.C, D_j.d)['min'] - b for a, b in zip(D_i.A, D_i.b)
                    ]))
""")]),
 ('bigM mat', ['C22'], [(CT, """        for i in range(s):
            for j in range(s):
                if j != i:
                    mat[sum(n_ineq_i[:i]):sum(n_ineq_i[:i+1]), j:j+1] = bigM[i][j]
""", """        start = 0
        for i in range(s):
            stop = start + n_ineq_i[i]
            for j in range(s):
                if i == j:
                    continue
                mat[start:stop, j:j+1] = bigM[i][j]
            start = stop
""")]),
 ('hybrid ff', ['C22'], [(CT, """        for z in z_list:
            x_list.append(np.sum([z[nx*i:nx*(i+1)] for i in range(s)], axis=0))
""", """        for z in z_list:
            x_next = np.zeros(nx)
            for i in range(s):
                x_next = x_next + z[nx*i:nx*(i+1)]
            x_list.append(x_next)
""")]),
 ('hybrid modes', ['C22'], [(CT, """        mode_sequence = []
        for d in d_list:
            mode_sequence.append(np.where(d > .5)[0][0])
""", """        mode_sequence = [np.flatnonzero(d > .5)[0] for d in d_list]
""")]),
 ('hybrid cond', ['C22'], [(CT, """        E_bar['u'] = block_diag(*[E['u']]*self.N)
        E_bar['u'] = np.vstack((E_bar['u'], np.zeros((self.X_N.A.shape[0], E_bar['u'].shape[1]))))
""", """        n_terminal = self.X_N.A.shape[0]
        u_bar = block_diag(*[E['u'] for t in range(self.N)])
        E_bar['u'] = np.concatenate((u_bar, np.zeros((n_terminal, u_bar.shape[1]))), axis=0)
""")]),
 ('crit value', ['C21'], [(PP, """        Acr = np.vstack((- pax, Aui.dot(ux) + Axi))
        bcr = np.concatenate((pa0, bi - Aui.dot(u0)))
        cr = Polyhedron(Acr, bcr)
""", """        cr = Polyhedron(- pax, pa0)
        cr.add_inequality(Axi + Aui.dot(ux), bi - Aui.dot(u0))
""")]),
 ('crit inactive', ['C21'], [(PP, """        inactive_set = [i for i in range(self.A['x'].shape[0]) if i not in active_set]
""", """        n_constraints = self.A['x'].shape[0]
        inactive_set = sorted(set(range(n_constraints)) - set(active_set))
""")]),
 ('crit inactive loop', ['C21'], [(PP, """        inactive_set = [i for i in range(self.A['x'].shape[0]) if i not in active_set]
""", """        inactive_set = []
        for k in range(self.A['x'].shape[0]):
            if not k in active_set:
                inactive_set.append(k)
""")]),
 ('crit common', ['C21'], [(PP, """        M = np.linalg.inv(Aua.dot(self.Huu_inv).dot(Aua.T))
        pax = M.dot(Axa - Aua.dot(self.Huu_inv).dot(self.H['ux']))
        pa0 = - M.dot(ba + Aua.dot(self.Huu_inv).dot(self.f['u']))
""", """        AH = Aua.dot(self.Huu_inv)
        M = np.linalg.inv(AH.dot(Aua.T))
        pax = M.dot(Axa - AH.dot(self.H['ux']))
        pa0 = M.dot(- ba - AH.dot(self.f['u']))
""")]),
 ('mpqp solve', ['C21'], [(PP, """            sol['min'] += .5*x.dot(self.H['xx']).dot(x) + self.f['x'].dot(x) + self.g
""", """            offset = .5*x.dot(self.H['xx'].dot(x)) + x.dot(self.f['x']) + self.g
            sol['min'] = sol['min'] + offset
""")]),
 ('lookup loop', ['C21'], [(PP, """        cr = self.get_critical_region(x)
        if cr is not None:
            return cr.u(x)
        return None
""", """        cr = self.get_critical_region(x)
        return None if cr is None else cr.u(x)
""")]),
 ('explicit buffer', ['C21'], [(PP, """        while len(x_buffer) > 0:
""", """        while x_buffer:
""")]),
 ('miqp solve', ['C22'], [(PP, """        nc = nu + nz
""", """        nc = nz + nu
"""), (PP, """            sol['u'] = sol_sf['argmin'][:nu]
            sol['z'] = sol_sf['argmin'][nu:nu+nz]
            sol['d'] = sol_sf['argmin'][nu+nz:]
""", """            argmin = sol_sf['argmin']
            sol['u'], sol['z'], sol['d'] = argmin[:nu], argmin[nu:nc], argmin[nc:]
""")]),
 ('lp blocks', ['C11'], [(NN, """    # equalities
    if C is not None:
        n_eq = C.shape[0]
    else:
        n_eq = 0
""", """    # equalities
    n_eq = 0 if C is None else C.shape[0]
""")]),
 ('lp n', ['C11'], [(NN, """    ys, x, r = pnnls(A_pnnls, B_pnnls, c_pnnls)
""", """    ys, x, residual = pnnls(A_pnnls, B_pnnls, c_pnnls)
    r = residual
""")]),
 ('pnnls inline', ['C11'], [(NN, """    B_bar = np.eye(A.shape[0]) - B.dot(B_pinv)
    A_bar = B_bar.dot(A)
    b_bar = B_bar.dot(c)
    v, r = nnls(A_bar, b_bar)
    u = -B_pinv.dot(A.dot(v) - c)
""", """    projector = np.identity(A.shape[0]) - B.dot(B_pinv)
    v, r = nnls(projector.dot(A), projector.dot(c))
    u = B_pinv.dot(c - A.dot(v))
""")]),
 ('qp early', ['C12'], [(NN, """        mul_eq_pos = lam[n_ineq:n_ineq+n_eq]
""", """        mul_eq_pos = lam[n_ineq:][:n_eq]
""")]),
 ('qp min', ['C12'], [(NN, """        sol['argmin'] = - H_inv.dot(f + AC.T.dot(lam))
        sol['min'] = .5*sol['argmin'].dot(H).dot(sol['argmin']) + f.dot(sol['argmin'])
""", """        x = -H_inv.dot(AC.T.dot(lam) + f)
        sol['argmin'] = x
        sol['min'] = x.dot(.5*H.dot(x) + f)
""")]),
]
