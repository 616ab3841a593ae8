"""third batch: other numpy spellings and Python constructs"""
P = 'geometry/polyhedron.py'
U = 'geometry/utils.py'
DS = 'dynamics/discrete_time_systems.py'
DM = 'dynamics/discretization_methods.py'
DU = 'dynamics/utils.py'
CO = 'control/controllers.py'
PP = 'optimization/parametric_programs.py'
PR = 'optimization/programs.py'
G = 'optimization/solvers/gurobi.py'
NN = 'optimization/solvers/pnnls.py'
R3 = [
 ('3 simulate matmul', ['C14'], [(DS, """            x.append(self.A.dot(x[-1]) + self.B.dot(v))""", """            x.append(self.A @ x[-1] + self.B @ v)""")]),
 ('3 simulate reduce', ['C14'], [(DS, """        x = [x0]
        for v in u:
            x.append(self.A.dot(x[-1]) + self.B.dot(v) + self.c)
        return x""", """        step = lambda z, v: np.dot(self.A, z) + np.matmul(self.B, v) + self.c
        x = [x0]
        for v in u:
            x += [step(x[-1], v)]
        return x""")]),
 ('3 closed loop hoist', ['C14'], [(DS, """        x = [x0]
        for t in range(N):
            x.append((self.A + self.B.dot(K)).dot(x[-1]))
        return x""", """        A_cl = self.A + self.B @ K
        trajectory = [x0]
        for _ in range(N):
            trajectory.append(A_cl @ trajectory[-1])
        return trajectory""")]),
 ('3 get_mode next', ['C14'], [(DS, """        for i, D in enumerate(self.domains):
            if D.contains(xu):
                return i
        return None""", """        return next((i for i, D in enumerate(self.domains) if D.contains(xu)), None)""")]),
 ('3 get_mode list', ['C14'], [(DS, """        for i, D in enumerate(self.domains):
            if D.contains(xu):
                return i
        return None""", """        modes = [i for i, D in enumerate(self.domains) if D.contains(xu)]
        return modes[0] if modes else None""")]),
 ('3 pwa simulate zip', ['C14'], [(DS, """        for t in range(len(u)):
            mode = self.get_mode(x[t], u[t])
            if mode is None:
                raise ValueError('simulation reached an unfeasible point x = ' + str(x[t]) + ', u = ' + str(u[t]) + '.')
            else:
                S = self.affine_systems[mode]
                x.append(S.A.dot(x[t]) + S.B.dot(u[t]) + S.c)
                mode_sequence.append(mode)
        return (x, mode_sequence)""", """        for v in u:
            z = x[-1]
            mode = self.get_mode(z, v)
            if mode is None:
                raise ValueError('simulation reached an unfeasible point x = {}, u = {}.'.format(z, v))
            S = self.affine_systems[mode]
            mode_sequence.append(mode)
            x.append(S.A @ z + S.B @ v + S.c)
        return (x, mode_sequence)""")]),
 ('3 wellposed combinations', ['C19'], [(DS, """        for i, Di in enumerate(self.domains):
            for j in range(i + 1, self.nm):
                Dij = Di.intersection(self.domains[j])
                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                    return False
        return True""", """        from itertools import combinations
        for Di, Dj in combinations(self.domains, 2):
            Dij = Di.intersection(Dj)
            if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                return False
        return True""")]),
 ('3 wellposed all', ['C19'], [(DS, """        for i, Di in enumerate(self.domains):
            for j in range(i + 1, self.nm):
                Dij = Di.intersection(self.domains[j])
                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                    return False
        return True""", """        def overlap(D1, D2):
            D12 = D1.intersection(D2)
            if D12.empty:
                return False
            return D12.radius is None or D12.radius > tol
        for i in range(self.nm):
            if any(overlap(self.domains[i], Dj) for Dj in self.domains[i + 1:]):
                return False
        return True""")]),
 ('3 controllable loop', ['C17'], [(DS, """        R = np.hstack([np.linalg.matrix_power(self.A, i).dot(self.B) for i in range(self.nx)])
        self._controllable = np.linalg.matrix_rank(R) == self.nx""", """        blocks = [self.B]
        for i in range(self.nx - 1):
            blocks.append(self.A.dot(blocks[-1]))
        self._controllable = np.linalg.matrix_rank(np.hstack(blocks)) == self.nx""")]),
 ('3 dare solve', ['C17'], [(DS, """        K = -np.linalg.inv(self.B.T.dot(P).dot(self.B) + R).dot(self.B.T).dot(P).dot(self.A)""", """        BtP = self.B.T @ P
        K = -np.linalg.solve(R + BtP @ self.B, BtP @ self.A)""")]),
 ('3 mcais A power carried', ['C18'], [(DS, """    t = 1
    convergence = False
    while not convergence:
        J = X.A.dot(np.linalg.matrix_power(A, t))""", """    t = 1
    convergence = False
    A_t = np.eye(nx)
    while not convergence:
        A_t = A_t.dot(A)
        J = X.A.dot(A_t)""")]),
 ('3 mcais residual helper', ['C18'], [(DS, """        residuals = []
        for i in range(X.A.shape[0]):
            sol = linear_program(-J[i], O_inf.A, O_inf.b)
            residuals.append(-sol['min'] - X.b[i])""", """        residuals = [-linear_program(-J_i, O_inf.A, O_inf.b)['min'] - b_i for J_i, b_i in zip(J, X.b)]""")]),
 ('3 mcais break', ['C18'], [(DS, """        if len(new_facets) == 0:
            convergence = True
        else:
            O_inf.add_inequality(J[new_facets], X.b[new_facets])
            t += 1""", """        if not new_facets:
            break
        O_inf.add_inequality(J[new_facets], X.b[new_facets])
        t += 1""")]),
 ('3 mcais eigvals', ['C18'], [(DS, """    eig_max = np.max(np.absolute(np.linalg.eig(A)[0]))
    if eig_max > 1.0:""", """    if np.abs(np.linalg.eigvals(A)).max() > 1.0:""")]),
 ('3 linsys mcais split', ['C18'], [(DS, """        X_cl = Polyhedron(D.A[:, :self.nx] + D.A[:, self.nx:].dot(K), D.b)""", """        D_x, D_u = D.A[:, :self.nx], D.A[:, self.nx:]
        X_cl = Polyhedron(D_x + D_u @ K, D.b)""")]),
 ('3 linsys mcais stack', ['C18'], [(DS, """        X_cl = Polyhedron(D.A[:, :self.nx] + D.A[:, self.nx:].dot(K), D.b)""", """        X_cl = Polyhedron(D.A.dot(np.vstack((np.eye(self.nx), K))), D.b)""")]),
 ('3 productory reduce', ['C15'], [(DS, """    A = matrix_list[0]
    for B in matrix_list[1:]:
        A = A.dot(B)
    return A""", """    from functools import reduce
    return reduce(np.dot, matrix_list)""")]),
 ('3 condense recursion B', ['C15'], [(DS, """    for i in range(N):
        for j in range(i):
            B_bar[nx * i:nx * (i + 1), nu * j:nu * (j + 1)] = productory(A_sequence[i:j:-1]).dot(B_sequence[j])
        B_bar[nx * i:nx * (i + 1), nu * i:nu * (i + 1)] = B_sequence[i]""", """    for i in range(N):
        rows = slice(nx * i, nx * (i + 1))
        B_bar[rows, nu * i:nu * (i + 1)] = B_sequence[i]
        for j in range(i):
            cols = slice(nu * j, nu * (j + 1))
            B_bar[rows, cols] = productory(A_sequence[i:j:-1]) @ B_sequence[j]""")]),
 ('3 condense sequences', ['C15'], [(DS, """    A_sequence = [affine_systems[mode_sequence[i]].A for i in range(N)]
    B_sequence = [affine_systems[mode_sequence[i]].B for i in range(N)]
    c_sequence = [affine_systems[mode_sequence[i]].c for i in range(N)]""", """    systems = [affine_systems[m] for m in mode_sequence]
    A_sequence = [S.A for S in systems]
    B_sequence = [S.B for S in systems]
    c_sequence = [S.c for S in systems]""")]),
 ('3 condense affine inline', ['C15'], [(DS, """        A_bar, B_bar, _ = condense_pwa_system([S], [0] * N)
        return (A_bar, B_bar)""", """        return S.condense(N)[:2]""")]),
 ('3 transition zip', ['C16'], [(DS, """    origin = {xi: 0 for xi in x}
    origin.update({ui: 0 for ui in u})
    c = np.array(x_next.subs(origin)).astype(np.float64).flatten()""", """    origin = {}
    for symbol in list(x) + list(u):
        origin[symbol] = 0
    c = np.array(x_next.subs(origin)).astype(np.float64).ravel()""")]),
 ('3 zoh block', ['C16'], [(DM, """    M_d = expm(M_c * h)""", """    M_d = expm(h * M_c)""")]),
 ('3 pwa sizes helper', ['C19'], [(DS, """        nx = set((S.nx for S in affine_systems))
        if len(nx) != 1:
            raise ValueError('all the affine systems must have the same number of states.')
        self.nx = list(nx)[0]""", """        nx = {S.nx for S in affine_systems}
        if len(nx) != 1:
            raise ValueError('all the affine systems must have the same number of states.')
        (self.nx,) = nx""")]),
 ('3 pwa sizes any', ['C19'], [(DS, """        nu = set((S.nu for S in affine_systems))
        if len(nu) != 1:
            raise ValueError('all the affine systems must have the same number of inputs.')
        self.nu = list(nu)[0]""", """        self.nu = affine_systems[0].nu
        if any(S.nu != self.nu for S in affine_systems):
            raise ValueError('all the affine systems must have the same number of inputs.')""")]),
 # ---- geometry
 ('3 contains matmul', ['C02'], [(P, """        in_ineq = np.all(self.A.dot(x) - self.b <= tol)
        in_eq = np.all(np.abs(self.C.dot(x) - self.d) <= tol)
        contains_x = in_ineq and in_eq
        return contains_x""", """        residual = self.A @ x - self.b
        if (residual > tol).any():
            return False
        return not np.any(np.absolute(self.C @ x - self.d) > tol)""")]),
 ('3 contains mask', ['C02'], [(P, """        in_ineq = np.all(self.A.dot(x) - self.b <= tol)""", """        in_ineq = np.count_nonzero(self.A.dot(x) - self.b > tol) == 0""")]),
 ('3 selection zeros', ['C01'], [(P, """        S = np.eye(n)[list(indices)]""", """        indices = list(indices)
        S = np.zeros((len(indices), n))
        S[np.arange(len(indices)), indices] = 1.0""")]),
 ('3 selection loop', ['C01'], [(P, """        S = np.eye(n)[list(indices)]""", """        indices = list(indices)
        S = np.zeros((len(indices), n))
        for row, column in enumerate(indices):
            S[row, column] = 1.0""")]),
 ('3 add_inequality np.r_', ['C01', 'C05'], [(P, """        self.A = np.vstack((self.A, A.dot(S)))
        self.b = np.concatenate((self.b, b))""", """        self.A, self.b = np.vstack((self.A, A @ S)), np.r_[self.b, b]""")]),
 ('3 add bounds loop', ['C01'], [(P, """        self.add_lower_bound(x_min, indices)
        self.add_upper_bound(x_max, indices)""", """        for add, bound in ((self.add_lower_bound, x_min), (self.add_upper_bound, x_max)):
            add(bound, indices)""")]),
 ('3 init ternary', ['C01'], [(P, """        self.add_inequality(-S, -x_min)""", """        self.add_inequality(np.negative(S), np.negative(x_min))""")]),
 ('3 delete attributes setattr', ['C05'], [(P, """    def _delete_attributes(self):
        self._empty = None
        self._bounded = None
        self._radius = None
        self._center = None
        self._vertices = None""", """    def _delete_attributes(self):
        for name in ('_empty', '_bounded', '_radius', '_center', '_vertices'):
            setattr(self, name, None)""")]),
 ('3 inclusion helper', ['C04'], [(P, """        included = True
        for i in range(A2.shape[0]):
            sol = linear_program(-A2[i], P1.A, P1.b)
            if sol['min'] is None or -sol['min'] - b2[i] > tol:
                included = False
                break
        return included""", """        for a, b in zip(A2, b2):
            sol = linear_program(-a, P1.A, P1.b)
            if sol['min'] is None:
                return False
            if -sol['min'] > b + tol:
                return False
        return True""")]),
 ('3 chebyshev newaxis', ['C08'], [(P, """        A_row_norm = np.reshape(np.linalg.norm(A, axis=1), (A.shape[0], 1))
        A_lp = np.hstack((A, -A_row_norm))""", """        A_row_norm = np.linalg.norm(A, axis=1)[:, np.newaxis]
        A_lp = np.c_[A, -A_row_norm]""")]),
 ('3 chebyshev sqrt', ['C08'], [(P, """        A_row_norm = np.reshape(np.linalg.norm(A, axis=1), (A.shape[0], 1))
        A_lp = np.hstack((A, -A_row_norm))""", """        A_row_norm = np.sqrt(np.sum(A ** 2, axis=1))
        A_lp = np.column_stack((A, -A_row_norm))""")]),
 ('3 chebyshev solve', ['C08'], [(P, """            r = np.linalg.inv(self.C.dot(R)).dot(self.d)
            center = np.hstack((N, R)).dot(np.concatenate((center, r)))""", """            r = np.linalg.solve(self.C @ R, self.d)
            center = N @ center + R @ r""")]),
 ('3 vertices unpack', ['C10'], [(P, """            V = polyhedron.intersections
            self._vertices = [V[i] for i in range(V.shape[0])]""", """            self._vertices = [vertex for vertex in polyhedron.intersections]""")]),
 ('3 vertices lift', ['C10'], [(P, """            r = np.linalg.inv(self.C.dot(R)).dot(self.d)
            self._vertices = [T.dot(np.concatenate((v, r))) for v in self._vertices]""", """            offset = R @ np.linalg.solve(self.C @ R, self.d)
            self._vertices = [N @ v + offset for v in self._vertices]""")]),
 ('3 hull equations', ['C10'], [(P, """        A = hull.equations[:, :-1]
        b = -hull.equations[:, -1:].flatten()
        p = Polyhedron(A, b)
        return p""", """        normals, offsets = hull.equations[:, :-1], hull.equations[:, -1]
        return Polyhedron(normals, -offsets)""")]),
 ('3 two vertices', ['C10'], [(P, """    a = np.concatenate((np.ones(1), np.zeros(A.shape[1] - 1)))
    vertices = []
    for f in [a, -a]:
        sol = linear_program(f, A, b)
        vertices.append(sol['argmin'][:n])
    return vertices""", """    a = np.zeros(A.shape[1])
    a[0] = 1.0
    return [linear_program(sign * a, A, b)['argmin'][:n] for sign in (1.0, -1.0)]""")]),
 ('3 bounded block', ['C07'], [(P, """        n, m = A.shape
        sol = linear_program(np.ones(n), -np.eye(n), -np.ones(n), A.T, np.zeros(m))
        self._bounded = sol['min'] is not None""", """        n_rows, n_cols = A.shape
        ones = np.ones(n_rows)
        sol = linear_program(ones, -np.identity(n_rows), -ones, A.transpose(), np.zeros(n_cols))
        self._bounded = sol['min'] is not None""")]),
 ('3 cartesian', ['C03'], [(P, """        return Polyhedron(block_diag(self.A, P2.A), np.concatenate((self.b, P2.b)), block_diag(self.C, P2.C), np.concatenate((self.d, P2.d)))""", """        n1, n2 = self.A.shape[1], P2.A.shape[1]
        A = np.block([[self.A, np.zeros((self.A.shape[0], n2))], [np.zeros((P2.A.shape[0], n1)), P2.A]])
        C = np.block([[self.C, np.zeros((self.C.shape[0], n2))], [np.zeros((P2.C.shape[0], n1)), P2.C]])
        return Polyhedron(A, np.hstack((self.b, P2.b)), C, np.hstack((self.d, P2.d)))""")]),
 ('3 intersection direct', ['C03'], [(P, """        P3 = copy(P2)
        P3.add_inequality(self.A, self.b)
        P3.add_equality(self.C, self.d)
        return P3""", """        return Polyhedron(np.vstack((P2.A, self.A)), np.concatenate((P2.b, self.b)), np.vstack((P2.C, self.C)), np.concatenate((P2.d, self.d)))""")]),
 # ---- control
 ('3 ocp np.kron', ['C20'], [(CO, """    Q_bar = block_diag(*[Q for i in range(N)] + [P])
    R_bar = block_diag(*[R for i in range(N)])""", """    Q_bar = block_diag(np.kron(np.eye(N), Q), P)
    R_bar = np.kron(np.eye(N), R)""")]),
 ('3 ocp matmul', ['C20'], [(CO, """    H['uu'] = R_bar + B_bar.T.dot(Q_bar).dot(B_bar)
    H['ux'] = B_bar.T.dot(Q_bar).dot(A_bar)
    H['xx'] = A_bar.T.dot(Q_bar).dot(A_bar)
    f = dict()
    f['u'] = B_bar.T.dot(Q_bar).dot(c_bar)
    f['x'] = A_bar.T.dot(Q_bar).dot(c_bar)
    g = 0.5 * c_bar.dot(Q_bar).dot(c_bar)""", """    QB, QA, Qc = Q_bar @ B_bar, Q_bar @ A_bar, Q_bar @ c_bar
    H['uu'] = B_bar.T @ QB + R_bar
    H['ux'] = B_bar.T @ QA
    H['xx'] = A_bar.T @ QA
    f = {'u': B_bar.T @ Qc, 'x': A_bar.T @ Qc}
    g = c_bar @ Qc / 2.0""")]),
 ('3 ocp dicts', ['C20'], [(CO, """    A = dict()
    A['u'] = G_bar + F_bar.dot(B_bar)
    A['x'] = F_bar.dot(A_bar)
    b = h_bar - F_bar.dot(c_bar)
    return MultiParametricQuadraticProgram(H, f, g, A, b)""", """    A = {'u': G_bar + F_bar @ B_bar, 'x': F_bar @ A_bar}
    return MultiParametricQuadraticProgram(H, f, g, A, h_bar - F_bar @ c_bar)""")]),
 ('3 feedforward reshape', ['C20'], [(CO, """        u_feedforward = [sol['argmin'][self.S.nu * i:self.S.nu * (i + 1)] for i in range(self.N)]
        V = sol['min']
        return (u_feedforward, V)""", """        u_feedforward = list(sol['argmin'].reshape(self.N, self.S.nu))
        return (u_feedforward, sol['min'])""")]),
 ('3 feedforward split', ['C20'], [(CO, """        u_feedforward = [sol['argmin'][self.S.nu * i:self.S.nu * (i + 1)] for i in range(self.N)]
        V = sol['min']
        return (u_feedforward, V)""", """        u_feedforward = np.split(sol['argmin'], self.N)
        return (u_feedforward, sol['min'])""")]),
 ('3 feedback tuple', ['C20'], [(CO, """        u_feedforward = self.feedforward(x)[0]
        if u_feedforward is None:
            return None
        return u_feedforward[0]""", """        u_feedforward, _ = self.feedforward(x)
        return u_feedforward[0] if u_feedforward is not None else None""")]),
 ('3 bigM comprehension', ['C22'], [(CO, """                for k in range(D_i.A.shape[0]):
                    f = -D_i.A[k]
                    sol = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
                    gamma_ij.append(-sol['min'] - D_i.b[k])
                gamma_i.append(np.vstack(gamma_ij))""", """                for a, b in zip(D_i.A, D_i.b):
                    sol = linear_program(-a, D_j.A, D_j.b, D_j.C, D_j.d)
                    gamma_ij.append(-sol['min'] - b)
                gamma_i.append(np.array(gamma_ij).reshape(-1, 1))""")]),
 ('3 bigM helper', ['C22'], [(CO, """                for k in range(S_i.nx):
                    f = A_i[k]
                    sol = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
                    alpha_ij.append(sol['min'] + S_i.c[k])
                    sol = linear_program(-f, D_j.A, D_j.b, D_j.C, D_j.d)
                    beta_ij.append(-sol['min'] + S_i.c[k])""", """                minimize = lambda f: linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)['min']
                for f, c in zip(A_i, S_i.c):
                    alpha_ij.append(c + minimize(f))
                    beta_ij.append(c - minimize(-f))""")]),
 ('3 bigM matrices blocks', ['C22'], [(CO, """        mat = np.zeros((sum(n_ineq_i), s))
        for i in range(s):
            for j in range(s):
                if j != i:
                    mat[sum(n_ineq_i[:i]):sum(n_ineq_i[:i + 1]), j:j + 1] = bigM[i][j]
        return mat""", """        return np.vstack([np.hstack([bigM[i][j] if j != i else np.zeros((n_ineq_i[i], 1)) for j in range(s)]) for i in range(s)])""")]),
 ('3 hybrid modes argmax', ['C22'], [(CO, """        mode_sequence = []
        for d in d_list:
            mode_sequence.append(np.where(d > 0.5)[0][0])""", """        mode_sequence = [np.flatnonzero(d > 0.5)[0] for d in d_list]""")]),
 ('3 hybrid states', ['C22'], [(CO, """        x_list = [x]
        for z in z_list:
            x_list.append(np.sum([z[nx * i:nx * (i + 1)] for i in range(s)], axis=0))""", """        x_list = [x] + [sum(z[nx * i:nx * (i + 1)] for i in range(s)) for z in z_list]""")]),
 ('3 hybrid states reshape', ['C22'], [(CO, """        x_list = [x]
        for z in z_list:
            x_list.append(np.sum([z[nx * i:nx * (i + 1)] for i in range(s)], axis=0))""", """        x_list = [x]
        x_list.extend(z.reshape(s, nx).sum(axis=0) for z in z_list)""")]),
 # ---- parametric
 ('3 region solve', ['C21'], [(PP, """        M = np.linalg.inv(Aua.dot(self.Huu_inv).dot(Aua.T))
        pax = M.dot(Axa - Aua.dot(self.Huu_inv).dot(self.H['ux']))
        pa0 = -M.dot(ba + Aua.dot(self.Huu_inv).dot(self.f['u']))""", """        AH = Aua @ self.Huu_inv
        M = AH @ Aua.T
        pax = np.linalg.solve(M, Axa - AH @ self.H['ux'])
        pa0 = -np.linalg.solve(M, ba + AH @ self.f['u'])""")]),
 ('3 region sets', ['C21'], [(PP, """        inactive_set = [i for i in range(self.A['x'].shape[0]) if i not in active_set]""", """        inactive_set = sorted(set(range(self.A['x'].shape[0])) - set(active_set))""")]),
 ('3 region sets mask', ['C21'], [(PP, """        inactive_set = [i for i in range(self.A['x'].shape[0]) if i not in active_set]""", """        inactive = np.ones(self.A['x'].shape[0], dtype=bool)
        inactive[active_set] = False
        inactive_set = np.flatnonzero(inactive).tolist()""")]),
 ('3 region value', ['C21'], [(PP, """        Vx = (ux.T.dot(self.H['uu'].T) + self.H['ux'].T).dot(u0) + ux.T.dot(self.f['u']) + self.f['x']""", """        Vx = ux.T @ (self.H['uu'].T @ u0 + self.f['u']) + self.H['ux'].T @ u0 + self.f['x']""")]),
 ('3 explicit lookup', ['C21'], [(PP, """        cr = self.get_critical_region(x)
        if cr is not None:
            return cr.u(x)
        return None""", """        cr = self.get_critical_region(x)
        return None if cr is None else cr.u(x)""")]),
 ('3 explicit next', ['C21'], [(PP, """        for cr in self.critical_regions:
            if cr.contains(x):
                return cr
        return None""", """        return next((cr for cr in self.critical_regions if cr.contains(x)), None)""")]),
 ('3 mpqp solve', ['C21'], [(PP, """        f = self.H['ux'].dot(x) + self.f['u']
        b = self.b - self.A['x'].dot(x)
        sol = quadratic_program(self.H['uu'], f, self.A['u'], b)
        if sol['min'] is not None:
            sol['min'] += 0.5 * x.dot(self.H['xx']).dot(x) + self.f['x'].dot(x) + self.g
        return sol""", """        sol = quadratic_program(self.H['uu'], self.f['u'] + self.H['ux'] @ x, self.A['u'], self.b - self.A['x'] @ x)
        if sol['min'] is None:
            return sol
        offset = 0.5 * (x @ self.H['xx'] @ x) + self.f['x'] @ x + self.g
        sol['min'] = sol['min'] + offset
        return sol""")]),
 ('3 miqp solve', ['C22'], [(PP, """        sol = {'min': sol_sf['min'], 'u': None, 'z': None, 'd': None}
        if sol['min'] is not None:
            sol['min'] += 0.5 * x.dot(self.H['xx']).dot(x)
            sol['u'] = sol_sf['argmin'][:nu]
            sol['z'] = sol_sf['argmin'][nu:nu + nz]
            sol['d'] = sol_sf['argmin'][nu + nz:]
        return sol""", """        if sol_sf['min'] is None:
            return dict.fromkeys(('min', 'u', 'z', 'd'))
        u, z, d = np.split(sol_sf['argmin'], [nu, nu + nz])
        return {'min': sol_sf['min'] + 0.5 * x @ self.H['xx'] @ x, 'u': u, 'z': z, 'd': d}""")]),
]
