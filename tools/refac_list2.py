"""second batch: (name, properties, [(file, old, new)])"""
P = 'geometry/polyhedron.py'
U = 'geometry/utils.py'
DS = 'dynamics/discrete_time_systems.py'
DM = 'dynamics/discretization_methods.py'
DU = 'dynamics/utils.py'
CO = 'control/controllers.py'
PP = 'optimization/parametric_programs.py'
PR = 'optimization/programs.py'
G = 'optimization/solvers/gurobi.py'
NN = 'optimization/solvers/pnnls.py'
R2 = [
 # ---- while loops
 ('2 simulate while', ['C14'], [(DS, """        x = [x0]
        for v in u:
            x.append(self.A.dot(x[-1]) + self.B.dot(v))
        return x""", """        x = [x0]
        t = 0
        while t < len(u):
            x.append(self.A.dot(x[t]) + self.B.dot(u[t]))
            t += 1
        return x""")]),
 ('2 get_mode while', ['C14'], [(DS, """        for i, D in enumerate(self.domains):
            if D.contains(xu):
                return i
        return None""", """        i = 0
        while i < len(self.domains):
            if self.domains[i].contains(xu):
                return i
            i += 1
        return None""")]),
 ('2 get_mode var', ['C14'], [(DS, """        for i, D in enumerate(self.domains):
            if D.contains(xu):
                return i
        return None""", """        mode = None
        for i, D in enumerate(self.domains):
            if D.contains(xu):
                mode = i
                break
        return mode""")]),
 ('2 productory while', ['C15'], [(DS, """    A = matrix_list[0]
    for B in matrix_list[1:]:
        A = A.dot(B)
    return A""", """    product = matrix_list[0]
    k = 1
    while k < len(matrix_list):
        product = product.dot(matrix_list[k])
        k += 1
    return product""")]),
 ('2 productory range', ['C15'], [(DS, """    A = matrix_list[0]
    for B in matrix_list[1:]:
        A = A.dot(B)
    return A""", """    A = matrix_list[0]
    for k in range(1, len(matrix_list)):
        A = np.dot(A, matrix_list[k])
    return A""")]),
 ('2 normalize helper both', ['C06', 'C05'], [(P, """        for i in range(self.A.shape[0]):
            r = np.linalg.norm(self.A[i])
            if r > tol:
                self.A[i] = self.A[i] / r
                self.b[i] = self.b[i] / r
        for i in range(self.C.shape[0]):
            r = np.linalg.norm(self.C[i])
            if r > tol:
                self.C[i] = self.C[i] / r
                self.d[i] = self.d[i] / r""", """        for E, f in ((self.A, self.b), (self.C, self.d)):
            for i in range(E.shape[0]):
                r = np.linalg.norm(E[i])
                if r > tol:
                    E[i] = E[i] / r
                    f[i] = f[i] / r""")]),
 ('2 normalize return', ['C06', 'C05'], [(P, """        self.A, self.b = (self.A.astype(float), self.b.astype(float))
        self.C, self.d = (self.C.astype(float), self.d.astype(float))
        for i in range(self.A.shape[0]):
            r = np.linalg.norm(self.A[i])
            if r > tol:
                self.A[i] = self.A[i] / r
                self.b[i] = self.b[i] / r
        for i in range(self.C.shape[0]):
            r = np.linalg.norm(self.C[i])
            if r > tol:
                self.C[i] = self.C[i] / r
                self.d[i] = self.d[i] / r""", """        self.A, self.b = self._normalized(self.A, self.b, tol)
        self.C, self.d = self._normalized(self.C, self.d, tol)

    @staticmethod
    def _normalized(E, f, tol):
        E = E.astype(float)
        f = f.astype(float)
        for i in range(E.shape[0]):
            norm = np.linalg.norm(E[i])
            if norm > tol:
                E[i] /= norm
                f[i] /= norm
        return E, f""")]),
 ('2 normalize norms first', ['C06', 'C05'], [(P, """        for i in range(self.A.shape[0]):
            r = np.linalg.norm(self.A[i])
            if r > tol:
                self.A[i] = self.A[i] / r
                self.b[i] = self.b[i] / r""", """        norms = np.linalg.norm(self.A, axis=1)
        for i, r in enumerate(norms):
            if r > tol:
                self.A[i] = self.A[i] / r
                self.b[i] = self.b[i] / r""")]),
 ('2 inclusion while', ['C04'], [(P, """        included = True
        for i in range(A2.shape[0]):
            sol = linear_program(-A2[i], P1.A, P1.b)
            if sol['min'] is None or -sol['min'] - b2[i] > tol:
                included = False
                break
        return included""", """        i = 0
        included = True
        while included and i < A2.shape[0]:
            sol = linear_program(-A2[i], P1.A, P1.b)
            if sol['min'] is None or -sol['min'] - b2[i] > tol:
                included = False
            i += 1
        return included""")]),
 ('2 inclusion return', ['C04'], [(P, """        included = True
        for i in range(A2.shape[0]):
            sol = linear_program(-A2[i], P1.A, P1.b)
            if sol['min'] is None or -sol['min'] - b2[i] > tol:
                included = False
                break
        return included""", """        for i in range(A2.shape[0]):
            sol = linear_program(-A2[i], P1.A, P1.b)
            if sol['min'] is None:
                return False
            if -sol['min'] > b2[i] + tol:
                return False
        return True""")]),
 ('2 inclusion stack helper', ['C04'], [(P, """        A1 = np.vstack((self.A, self.C, -self.C))
        b1 = np.concatenate((self.b, self.d, -self.d))
        P1 = Polyhedron(A1, b1)
        A2 = np.vstack((P2.A, P2.C, -P2.C))
        b2 = np.concatenate((P2.b, P2.d, -P2.d))""", """        P1 = Polyhedron(*self._as_inequalities())
        A2, b2 = P2._as_inequalities()"""), (P, """    def intersection(self, P2):""", """    def _as_inequalities(self):
        return np.vstack((self.A, self.C, -self.C)), np.concatenate((self.b, self.d, -self.d))

    def intersection(self, P2):""")]),
 ('2 minimal while', ['C09', 'C05'], [(P, """        for i in range(E.shape[0]):
            E_minimal = E[minimal_facets]""", """        for i, row in enumerate(E):
            E_minimal = E[minimal_facets]"""), (P, "sol = linear_program(-E[i], E_minimal, f_relaxed)", "sol = linear_program(-row, E_minimal, f_relaxed)")]),
 ('2 minimal relax', ['C09', 'C05'], [(P, """            f_relaxation = np.zeros(f.size)
            f_relaxation[i] += 1.0
            f_relaxed = (f + f_relaxation)[minimal_facets]""", """            f_relaxed = f.copy()
            f_relaxed[i] = f_relaxed[i] + 1.0
            f_relaxed = f_relaxed[minimal_facets]""")]),
 ('2 minimal helper', ['C09', 'C05'], [(P, """            f_relaxation = np.zeros(f.size)
            f_relaxation[i] += 1.0
            f_relaxed = (f + f_relaxation)[minimal_facets]
            sol = linear_program(-E[i], E_minimal, f_relaxed)
            is_constant = np.linalg.norm(E[i]) <= tol * np.linalg.norm(self.A[i])
            if is_constant or -sol['min'] - f[i] < tol:
                minimal_facets.remove(i)""", """            if self._is_redundant(i, E, f, E_minimal, minimal_facets, tol):
                minimal_facets.remove(i)"""), (P, """    def remove_redundant_inequalities(self):""", """    def _is_redundant(self, i, E, f, E_minimal, kept, tol):
        relaxation = np.zeros(f.size)
        relaxation[i] += 1.0
        f_relaxed = (f + relaxation)[kept]
        sol = linear_program(-E[i], E_minimal, f_relaxed)
        if np.linalg.norm(E[i]) <= tol * np.linalg.norm(self.A[i]):
            return True
        return -sol['min'] - f[i] < tol

    def remove_redundant_inequalities(self):""")]),
 ('2 minimal eye', ['C09', 'C05'], [(P, """            f_relaxation = np.zeros(f.size)
            f_relaxation[i] += 1.0
            f_relaxed = (f + f_relaxation)[minimal_facets]""", """            f_relaxed = (f + np.eye(f.size)[i])[minimal_facets]""")]),
 ('2 minimal continue', ['C09', 'C05'], [(P, """            is_constant = np.linalg.norm(E[i]) <= tol * np.linalg.norm(self.A[i])
            if is_constant or -sol['min'] - f[i] < tol:
                minimal_facets.remove(i)""", """            is_constant = np.linalg.norm(E[i]) <= tol * np.linalg.norm(self.A[i])
            if not is_constant and -sol['min'] - f[i] >= tol:
                continue
            minimal_facets.remove(i)""")]),
 ('2 minimal lp first', ['C09', 'C05'], [(P, """            sol = linear_program(-E[i], E_minimal, f_relaxed)
            is_constant = np.linalg.norm(E[i]) <= tol * np.linalg.norm(self.A[i])
            if is_constant or -sol['min'] - f[i] < tol:
                minimal_facets.remove(i)""", """            is_constant = np.linalg.norm(E[i]) <= tol * np.linalg.norm(self.A[i])
            sol = linear_program(-E[i], E_minimal, f_relaxed)
            support = -sol['min']
            if is_constant or support < f[i] + tol:
                minimal_facets.remove(i)""")]),
 # ---- polyhedron
 ('2 init swap', ['C01', 'C03', 'C05'], [(P, """        if (C is None) != (d is None):
            raise ValueError('missing C or d.')
        if C is None:
            self.C = np.zeros((0, A.shape[1]))
            self.d = np.zeros(0)
        else:
            if len(d.shape) > 1:
                raise ValueError('b must be a one dimensional array.')
            self._same_number_rows(C, d)
            self.C = C
            self.d = d
        self._empty = None
        self._bounded = None
        self._radius = None
        self._center = None
        self._vertices = None""", """        missing_C, missing_d = C is None, d is None
        if missing_C != missing_d:
            raise ValueError('missing C or d.')
        if not missing_C:
            if d.ndim > 1:
                raise ValueError('b must be a one dimensional array.')
            self._same_number_rows(C, d)
        else:
            C = np.zeros((0, A.shape[1]))
            d = np.zeros(0)
        self.C = C
        self.d = d
        self._delete_attributes()""")]),
 ('2 append helper', ['C01', 'C03', 'C05'], [(P, """        self._same_number_rows(A, b)
        self._delete_attributes()
        S = self._selection_matrix(indices)
        self.A = np.vstack((self.A, A.dot(S)))
        self.b = np.concatenate((self.b, b))""", """        self.A, self.b = self._append(self.A, self.b, A, b, indices)"""), (P, """        self._same_number_rows(C, d)
        self._delete_attributes()
        S = self._selection_matrix(indices)
        self.C = np.vstack((self.C, C.dot(S)))
        self.d = np.concatenate((self.d, d))""", """        self.C, self.d = self._append(self.C, self.d, C, d, indices)"""), (P, """    def _delete_attributes(self):""", """    def _append(self, E_old, f_old, E, f, indices):
        self._same_number_rows(E, f)
        self._delete_attributes()
        E_new = E.dot(self._selection_matrix(indices))
        return np.vstack((E_old, E_new)), np.concatenate((f_old, f))

    def _delete_attributes(self):""")]),
 ('2 bounds both', ['C01', 'C05'], [(P, """        self.add_lower_bound(x_min, indices)
        self.add_upper_bound(x_max, indices)""", """        for bound, add in ((x_min, self.add_lower_bound), (x_max, self.add_upper_bound)):
            add(bound, indices)""")]),
 ('2 from lower', ['C01', 'C05'], [(P, """        if n is None:
            n = x_min.size
        A = np.zeros((0, n))
        b = np.zeros(0)
        p = Polyhedron(A, b)
        p.add_lower_bound(x_min, indices)
        return p""", """        p = Polyhedron._unconstrained(x_min.size if n is None else n)
        p.add_lower_bound(x_min, indices)
        return p

    @staticmethod
    def _unconstrained(n):
        return Polyhedron(np.zeros((0, n)), np.zeros(0))""")]),
 ('2 setattr', ['C05', 'C01', 'C03'], [(P, """    def _delete_attributes(self):
        self._empty = None
        self._bounded = None
        self._radius = None
        self._center = None
        self._vertices = None""", """    def _delete_attributes(self):
        for name in ['_empty', '_bounded', '_radius', '_center', '_vertices']:
            setattr(self, name, None)""")]),
 ('2 chain none', ['C05', 'C01', 'C03'], [(P, """    def _delete_attributes(self):
        self._empty = None
        self._bounded = None
        self._radius = None
        self._center = None
        self._vertices = None""", """    def _delete_attributes(self):
        self._empty = self._bounded = None
        self._radius = self._center = self._vertices = None""")]),
 ('2 empty cond', ['C07', 'C05'], [(P, """        if self._empty is not None:
            return self._empty
        H = np.eye(self.A.shape[1])
        f = np.zeros(self.A.shape[1])
        sol = quadratic_program(H, f, self.A, self.b, self.C, self.d)
        self._empty = sol['min'] is None
        return self._empty""", """        if self._empty is None:
            n = self.A.shape[1]
            sol = quadratic_program(np.eye(n), np.zeros(n), self.A, self.b, self.C, self.d)
            self._empty = sol['min'] is None
        return self._empty""")]),
 ('2 bounded cond', ['C07', 'C05'], [(P, """        A = np.vstack((self.A, self.C, -self.C))
        if nullspace_basis(A).shape[1] > 0:
            return False
        n, m = A.shape
        sol = linear_program(np.ones(n), -np.eye(n), -np.ones(n), A.T, np.zeros(m))
        self._bounded = sol['min'] is not None
        return self._bounded""", """        E = np.vstack((self.A, self.C, -self.C))
        kernel = nullspace_basis(E)
        if kernel.shape[1] != 0:
            return False
        n_rows = E.shape[0]
        n_cols = E.shape[1]
        ones = np.ones(n_rows)
        sol = linear_program(ones, -np.eye(n_rows), -ones, E.T, np.zeros(n_cols))
        self._bounded = not sol['min'] is None
        return self._bounded""")]),
 ('2 contains split', ['C02', 'C14'], [(P, """        in_ineq = np.all(self.A.dot(x) - self.b <= tol)
        in_eq = np.all(np.abs(self.C.dot(x) - self.d) <= tol)
        contains_x = in_ineq and in_eq
        return contains_x""", """        residual_ineq = self.A.dot(x) - self.b
        residual_eq = self.C.dot(x) - self.d
        if np.any(residual_ineq > tol):
            return False
        return not np.any(np.abs(residual_eq) > tol)""")]),
 ('2 contains stack', ['C02', 'C14'], [(P, """        in_ineq = np.all(self.A.dot(x) - self.b <= tol)
        in_eq = np.all(np.abs(self.C.dot(x) - self.d) <= tol)
        contains_x = in_ineq and in_eq
        return contains_x""", """        E = np.vstack((self.A, self.C, -self.C))
        f = np.concatenate((self.b, self.d, -self.d))
        return bool(np.all(E.dot(x) - f <= tol))""")]),
 ('2 cartesian', ['C03', 'C05'], [(P, """        return Polyhedron(block_diag(self.A, P2.A), np.concatenate((self.b, P2.b)), block_diag(self.C, P2.C), np.concatenate((self.d, P2.d)))""",
  """        n1, n2 = self.A.shape[1], P2.A.shape[1]
        A = np.vstack((np.hstack((self.A, np.zeros((self.A.shape[0], n2)))), np.hstack((np.zeros((P2.A.shape[0], n1)), P2.A))))
        C = np.vstack((np.hstack((self.C, np.zeros((self.C.shape[0], n2)))), np.hstack((np.zeros((P2.C.shape[0], n1)), P2.C))))
        b = np.concatenate((self.b, P2.b))
        d = np.concatenate((self.d, P2.d))
        return Polyhedron(A, b, C, d)""")]),
 ('2 radius cond', ['C08', 'C05'], [(P, """        if self._radius is not None:
            return self._radius
        self._radius, self._center = self._chebyshev()
        return self._radius""", """        if self._radius is None:
            self._radius, self._center = self._chebyshev()
        return self._radius""")]),
 ('2 cheb early', ['C08', 'C05'], [(P, """        radius = sol['min']
        center = sol['argmin']
        if radius is not None:
            radius = -radius
            center = center[:-1]
        if center is not None and self.C.shape[0] > 0:
            r = np.linalg.inv(self.C.dot(R)).dot(self.d)
            center = np.hstack((N, R)).dot(np.concatenate((center, r)))
        return (radius, center)""", """        if sol['min'] is None:
            return None, None
        radius = -sol['min']
        center = sol['argmin'][:A.shape[1]]
        if self.C.shape[0] > 0:
            r = np.linalg.inv(self.C.dot(R)).dot(self.d)
            center = N.dot(center) + R.dot(r)
        return radius, center""")]),
 ('2 cheb norm', ['C08', 'C05'], [(P, """        f_lp = np.concatenate((np.zeros(A.shape[1]), np.ones(1)))
        A_row_norm = np.reshape(np.linalg.norm(A, axis=1), (A.shape[0], 1))
        A_lp = np.hstack((A, -A_row_norm))""", """        f_lp = np.zeros(A.shape[1] + 1)
        f_lp[-1] = 1.0
        A_row_norm = np.linalg.norm(A, axis=1)
        A_lp = np.column_stack((A, -A_row_norm))""")]),
 ('2 remove eq particular', ['C08', 'C09', 'C10'], [(P, """        R = nullspace_basis(N.T)
        E = self.A.dot(N)
        r = np.linalg.inv(self.C.dot(R)).dot(self.d)
        f = self.b - self.A.dot(R.dot(r))
        return (E, f, N, R)""", """        R = nullspace_basis(N.T)
        x_particular = R.dot(np.linalg.inv(self.C.dot(R)).dot(self.d))
        return self.A.dot(N), self.b - self.A.dot(x_particular), N, R""")]),
 ('2 redundant pop', ['C09', 'C05'], [(P, """        minimal_facets = self.minimal_facets()
        if minimal_facets is None:
            raise ValueError('empty polyhedron, cannot remove redundant inequalities.')
        self.A = self.A[minimal_facets]
        self.b = self.b[minimal_facets]""", """        keep = self.minimal_facets()
        if keep is None:
            raise ValueError('empty polyhedron, cannot remove redundant inequalities.')
        self.A, self.b = self.A[keep, :], self.b[keep]""")]),
 ('2 vertices helper', ['C10', 'C05'], [(P, """            halfspaces = np.column_stack((A, -b))
            polyhedron = HalfspaceIntersection(halfspaces, center)
            V = polyhedron.intersections
            self._vertices = [V[i] for i in range(V.shape[0])]""", """            halfspaces = np.hstack((A, -b.reshape(b.size, 1)))
            V = HalfspaceIntersection(halfspaces, center).intersections
            self._vertices = [v for v in V]""")]),
 ('2 vertices local', ['C10', 'C05'], [(P, """        if A.shape[1] == 1:
            p = Polyhedron(A, b)
            p.remove_redundant_inequalities()
            self._vertices = [np.array([p.b[i] / p.A[i, 0]]) for i in [0, 1]]
        else:
            halfspaces = np.column_stack((A, -b))
            polyhedron = HalfspaceIntersection(halfspaces, center)
            V = polyhedron.intersections
            self._vertices = [V[i] for i in range(V.shape[0])]
        if self.C.shape[0] > 0:
            r = np.linalg.inv(self.C.dot(R)).dot(self.d)
            self._vertices = [T.dot(np.concatenate((v, r))) for v in self._vertices]
        return self._vertices""", """        if A.shape[1] == 1:
            p = Polyhedron(A, b)
            p.remove_redundant_inequalities()
            vertices = [np.array([p.b[0] / p.A[0, 0]]), np.array([p.b[1] / p.A[1, 0]])]
        else:
            halfspaces = np.column_stack((A, -b))
            polyhedron = HalfspaceIntersection(halfspaces, center)
            vertices = list(polyhedron.intersections)
        if self.C.shape[0] > 0:
            r = np.linalg.inv(self.C.dot(R)).dot(self.d)
            vertices = [T.dot(np.concatenate((v, r))) for v in vertices]
        self._vertices = vertices
        return self._vertices""")]),
 ('2 project order', ['C10'], [(P, """        if self.empty:
            raise ValueError('cannot project empty polyhedra.')
        if not self.bounded:
            raise ValueError('cannot project unbounded polyhedra.')
        if self.C.shape[0] > 0:
            raise ValueError('cannot project lower-dimensional polyhedra.')
        A, b, vertices = convex_hull_method(self.A, self.b, residual_dimensions)
        proj = Polyhedron(A, b)
        proj._vertices = vertices
        return proj""", """        self._check_projectable()
        E, f, V = convex_hull_method(self.A, self.b, residual_dimensions)
        projection = Polyhedron(E, f)
        projection._vertices = V
        return projection

    def _check_projectable(self):
        if self.empty:
            raise ValueError('cannot project empty polyhedra.')
        if not self.bounded:
            raise ValueError('cannot project unbounded polyhedra.')
        if self.C.shape[0] > 0:
            raise ValueError('cannot project lower-dimensional polyhedra.')""")]),
 ('2 hull eq', ['C10'], [(P, """        hull = ConvexHull(np.vstack(points))
        A = hull.equations[:, :-1]
        b = -hull.equations[:, -1:].flatten()
        p = Polyhedron(A, b)
        return p""", """        equations = ConvexHull(np.vstack(points)).equations
        return Polyhedron(equations[:, :-1], -equations[:, -1])""")]),
 ('2 expand norm', ['C10'], [(P, """            a = hull.equations[i, :-1]
            d = -hull.equations[i, -1]
            a_norm = np.linalg.norm(a)
            a = a / a_norm
            d = d / a_norm
            is_explored = any((np.allclose(a, a2) for a2 in a_explored))
            if not is_explored:
                a_explored.append(a)
                f = np.concatenate((-a, np.zeros(A.shape[1] - n)))
                sol = linear_program(f, A, b)
                expansion = -sol['min'] - d
                if expansion > tol:
                    convergence = False
                    hull.add_points(sol['argmin'][:n].reshape(1, n))
                    break""", """            equation = hull.equations[i]
            equation = equation / np.linalg.norm(equation[:-1])
            a = equation[:-1]
            d = -equation[-1]
            if any([np.allclose(a, a2) for a2 in a_explored]):
                continue
            a_explored.append(a)
            f = np.concatenate((-a, np.zeros(A.shape[1] - n)))
            sol = linear_program(f, A, b)
            if -sol['min'] - d > tol:
                convergence = False
                hull.add_points(sol['argmin'][:n].reshape(1, n))
                break""")]),
 ('2 simplex pair', ['C10'], [(P, """        expansion = np.abs(a.dot(sol['argmin'][:i]) - d)
        if expansion < tol:
            sol = linear_program(-f, A, b)
        vertices.append(sol['argmin'][:n])""", """        x = sol['argmin']
        if np.abs(a.dot(x[:i]) - d) < tol:
            x = linear_program(-f, A, b)['argmin']
        vertices.append(x[:n])""")]),
 # ---- dynamics
 ('2 affine step', ['C14'], [(DS, """            x.append(self.A.dot(x[-1]) + self.B.dot(v) + self.c)
        return x""", """            x_next = self.c + self.A.dot(x[-1]) + self.B.dot(v)
            x.append(x_next)
        return x""")]),
 ('2 pwa simulate step', ['C14'], [(DS, """            mode = self.get_mode(x[t], u[t])
            if mode is None:
                raise ValueError('simulation reached an unfeasible point x = ' + str(x[t]) + ', u = ' + str(u[t]) + '.')
            else:
                S = self.affine_systems[mode]
                x.append(S.A.dot(x[t]) + S.B.dot(u[t]) + S.c)
                mode_sequence.append(mode)""", """            mode, x_next = self._step(x[-1], u[t])
            x.append(x_next)
            mode_sequence.append(mode)"""), (DS, """    def get_mode(self, x, u):""", """    def _step(self, x, u):
        mode = self.get_mode(x, u)
        if mode is None:
            raise ValueError('simulation reached an unfeasible point x = ' + str(x) + ', u = ' + str(u) + '.')
        S = self.affine_systems[mode]
        return mode, S.A.dot(x) + S.B.dot(u) + S.c

    def get_mode(self, x, u):""")]),
 ('2 pwa simulate enumerate', ['C14'], [(DS, """        for t in range(len(u)):
            mode = self.get_mode(x[t], u[t])
            if mode is None:
                raise ValueError('simulation reached an unfeasible point x = ' + str(x[t]) + ', u = ' + str(u[t]) + '.')
            else:
                S = self.affine_systems[mode]
                x.append(S.A.dot(x[t]) + S.B.dot(u[t]) + S.c)
                mode_sequence.append(mode)""", """        for t, u_t in enumerate(u):
            x_t = x[t]
            mode = self.get_mode(x_t, u_t)
            if mode is None:
                raise ValueError('simulation reached an unfeasible point x = ' + str(x_t) + ', u = ' + str(u_t) + '.')
            mode_sequence.append(mode)
            x += self.affine_systems[mode].simulate(x_t, [u_t])[1:]""")]),
 ('2 closed loop K', ['C14'], [(DS, """        for t in range(N):
            x.append((self.A + self.B.dot(K)).dot(x[-1]))""", """        A_cl = self.A + np.dot(self.B, K)
        for t in range(N):
            x.append(np.dot(A_cl, x[t]))""")]),
 ('2 condense linear', ['C15'], [(DS, """        A_bar, B_bar, _ = condense_pwa_system([S], [0] * N)
        return (A_bar, B_bar)""", """        return S.condense(N)[:2]""")]),
 ('2 condense seq', ['C15', 'C20'], [(DS, """    A_sequence = [affine_systems[mode_sequence[i]].A for i in range(N)]
    B_sequence = [affine_systems[mode_sequence[i]].B for i in range(N)]
    c_sequence = [affine_systems[mode_sequence[i]].c for i in range(N)]""", """    systems = [affine_systems[mode] for mode in mode_sequence]
    A_sequence = [S.A for S in systems]
    B_sequence = [S.B for S in systems]
    c_sequence = [S.c for S in systems]""")]),
 ('2 condense seq loop', ['C15'], [(DS, """    A_sequence = [affine_systems[mode_sequence[i]].A for i in range(N)]
    B_sequence = [affine_systems[mode_sequence[i]].B for i in range(N)]
    c_sequence = [affine_systems[mode_sequence[i]].c for i in range(N)]""", """    A_sequence, B_sequence, c_sequence = [], [], []
    for mode in mode_sequence:
        S = affine_systems[mode]
        A_sequence.append(S.A)
        B_sequence.append(S.B)
        c_sequence.append(S.c)""")]),
 ('2 condense Abar', ['C15'], [(DS, """    A_bar = np.vstack([productory(A_sequence[i::-1]) for i in range(N)])
    A_bar = np.vstack((np.eye(nx), A_bar))""", """    A_bar = np.vstack([np.eye(nx)] + [productory(A_sequence[i::-1]) for i in range(N)])""")]),
 ('2 condense Bbar', ['C15'], [(DS, """    B_bar = np.zeros((nx * N, nu * N))
    for i in range(N):
        for j in range(i):
            B_bar[nx * i:nx * (i + 1), nu * j:nu * (j + 1)] = productory(A_sequence[i:j:-1]).dot(B_sequence[j])
        B_bar[nx * i:nx * (i + 1), nu * i:nu * (i + 1)] = B_sequence[i]
    B_bar = np.vstack((np.zeros((nx, nu * N)), B_bar))""", """    B_bar = np.zeros((nx * (N + 1), nu * N))
    for i in range(N):
        rows = slice(nx * (i + 1), nx * (i + 2))
        for j in range(i):
            B_bar[rows, nu * j:nu * (j + 1)] = productory(A_sequence[i:j:-1]).dot(B_sequence[j])
        B_bar[rows, nu * i:nu * (i + 1)] = B_sequence[i]""")]),
 ('2 condense Bbar diag', ['C15'], [(DS, """        for j in range(i):
            B_bar[nx * i:nx * (i + 1), nu * j:nu * (j + 1)] = productory(A_sequence[i:j:-1]).dot(B_sequence[j])
        B_bar[nx * i:nx * (i + 1), nu * i:nu * (i + 1)] = B_sequence[i]""", """        B_bar[nx * i:nx * (i + 1), nu * i:nu * (i + 1)] = B_sequence[i]
        for j in range(i):
            block = productory(A_sequence[i:j:-1]).dot(B_sequence[j])
            B_bar[nx * i:nx * (i + 1), nu * j:nu * (j + 1)] = block""")]),
 ('2 condense cbar', ['C15'], [(DS, """    c_bar = np.concatenate((np.zeros(nx), c_sequence[0]))
    for i in range(1, N):
        offset_i = sum([productory(A_sequence[i:j:-1]).dot(c_sequence[j]) for j in range(i)]) + c_sequence[i]
        c_bar = np.concatenate((c_bar, offset_i))""", """    offset = c_sequence[0]
    offsets = [np.zeros(nx), offset]
    for i in range(1, N):
        offset = A_sequence[i].dot(offset) + c_sequence[i]
        offsets.append(offset)
    c_bar = np.concatenate(offsets)""")]),
 ('2 condense cbar acc', ['C15'], [(DS, """        offset_i = sum([productory(A_sequence[i:j:-1]).dot(c_sequence[j]) for j in range(i)]) + c_sequence[i]
        c_bar = np.concatenate((c_bar, offset_i))""", """        offset_i = c_sequence[i]
        for j in range(i):
            offset_i = offset_i + productory(A_sequence[i:j:-1]).dot(c_sequence[j])
        c_bar = np.concatenate((c_bar, offset_i))""")]),
 ('2 controllable', ['C17'], [(DS, """        if self._controllable is not None:
            return self._controllable
        controllable = False
        R = np.hstack([np.linalg.matrix_power(self.A, i).dot(self.B) for i in range(self.nx)])
        self._controllable = np.linalg.matrix_rank(R) == self.nx
        return self._controllable""", """        if self._controllable is None:
            blocks = [self.B]
            for i in range(1, self.nx):
                blocks.append(self.A.dot(blocks[-1]))
            R = np.hstack(blocks)
            self._controllable = np.linalg.matrix_rank(R) == self.nx
        return self._controllable""")]),
 ('2 dare solve', ['C17'], [(DS, """        K = -np.linalg.inv(self.B.T.dot(P).dot(self.B) + R).dot(self.B.T).dot(P).dot(self.A)""", """        BtP = self.B.T.dot(P)
        K = -np.linalg.solve(R + BtP.dot(self.B), BtP.dot(self.A))""")]),
 ('2 mcais helper', ['C18'], [(DS, """        residuals = []
        for i in range(X.A.shape[0]):
            sol = linear_program(-J[i], O_inf.A, O_inf.b)
            residuals.append(-sol['min'] - X.b[i])""", """        residuals = _residuals(J, X.b, O_inf)"""), (DS, """def condense_pwa_system(affine_systems, mode_sequence):""", """def _residuals(J, b, P):
    residuals = []
    for j, bj in zip(J, b):
        sol = linear_program(-j, P.A, P.b)
        residuals.append(-sol['min'] - bj)
    return residuals

def condense_pwa_system(affine_systems, mode_sequence):""")]),
 ('2 mcais where', ['C18'], [(DS, """        new_facets = [i for i, r in enumerate(residuals) if r > 0.0]
        if len(new_facets) == 0:
            convergence = True
        else:
            O_inf.add_inequality(J[new_facets], X.b[new_facets])
            t += 1""", """        new_facets = np.where(np.array(residuals) > 0.0)[0]
        convergence = len(new_facets) == 0
        if not convergence:
            O_inf.add_inequality(J[new_facets], X.b[new_facets])
            t += 1""")]),
 ('2 mcais ctor', ['C18'], [(DS, """        A_cl = self.A + self.B.dot(K)
        X_cl = Polyhedron(D.A[:, :self.nx] + D.A[:, self.nx:].dot(K), D.b)
        O_inf = mcais(A_cl, X_cl, **kwargs)
        return O_inf""", """        D_x, D_u = D.A[:, :self.nx], D.A[:, self.nx:]
        X_cl = Polyhedron(D_x + D_u.dot(K), D.b)
        return mcais(self.A + self.B.dot(K), X_cl, **kwargs)""")]),
 ('2 well posed any', ['C19'], [(DS, """        for i, Di in enumerate(self.domains):
            for j in range(i + 1, self.nm):
                Dij = Di.intersection(self.domains[j])
                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                    return False
        return True""", """        for i in range(self.nm):
            for j in range(i):
                Dij = self.domains[i].intersection(self.domains[j])
                if Dij.empty:
                    continue
                if Dij.radius is None or Dij.radius > tol:
                    return False
        return True""")]),
 ('2 well posed flag', ['C19'], [(DS, """        for i, Di in enumerate(self.domains):
            for j in range(i + 1, self.nm):
                Dij = Di.intersection(self.domains[j])
                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                    return False
        return True""", """        for i in range(self.nm):
            for j in range(i + 1, self.nm):
                if self._overlap(self.domains[i], self.domains[j], tol):
                    return False
        return True

    @staticmethod
    def _overlap(D1, D2, tol):
        D12 = D1.intersection(D2)
        if D12.empty:
            return False
        radius = D12.radius
        return radius is None or radius > tol""")]),
 ('2 pwa ctor helper', ['C19'], [(DS, """        nx = set((S.nx for S in affine_systems))
        if len(nx) != 1:
            raise ValueError('all the affine systems must have the same number of states.')
        self.nx = list(nx)[0]""", """        nx = {S.nx for S in affine_systems}
        if len(nx) != 1:
            raise ValueError('all the affine systems must have the same number of states.')
        self.nx = nx.pop()""")]),
 ('2 pwa ctor nx', ['C19'], [(DS, """        for i, S in enumerate(affine_systems):
            if isinstance(S, LinearSystem):
                c = np.zeros(self.nx)
                affine_systems[i] = AffineSystem(S.A, S.B, c)""", """        for i in range(len(affine_systems)):
            S = affine_systems[i]
            if isinstance(S, LinearSystem):
                affine_systems[i] = AffineSystem(S.A, S.B, np.zeros(S.nx))""")]),
 # ---- discretization
 ('2 euler order', ['C16'], [(DM, """    A_d = A * h + np.eye(A.shape[0])
    B_d = B * h
    c_d = c * h
    return (A_d, B_d, c_d)""", """    n = A.shape[0]
    B_d, c_d = h * B, h * c
    A_d = np.eye(n) + h * A
    return A_d, B_d, c_d""")]),
 ('2 zoh block', ['C16'], [(DM, """    n_x = np.shape(A)[0]
    n_u = np.shape(B)[1]
    M_c = np.vstack((np.column_stack((A, B, c)), np.zeros((n_u + 1, n_x + n_u + 1))))
    M_d = expm(M_c * h)
    A_d = M_d[:n_x, :n_x]
    B_d = M_d[:n_x, n_x:n_x + n_u]
    c_d = M_d[:n_x, n_x + n_u]
    return (A_d, B_d, c_d)""", """    n_x, n_u = B.shape
    n = n_x + n_u + 1
    M_c = np.zeros((n, n))
    M_c[:n_x, :n_x] = A
    M_c[:n_x, n_x:n_x + n_u] = B
    M_c[:n_x, -1] = c
    M_d = expm(h * M_c)[:n_x]
    return M_d[:, :n_x], M_d[:, n_x:-1], M_d[:, -1]""")]),
 ('2 zoh helper', ['C16'], [(DM, """    M_c = np.vstack((np.column_stack((A, B, c)), np.zeros((n_u + 1, n_x + n_u + 1))))
    M_d = expm(M_c * h)
    A_d = M_d[:n_x, :n_x]
    B_d = M_d[:n_x, n_x:n_x + n_u]
    c_d = M_d[:n_x, n_x + n_u]
    return (A_d, B_d, c_d)""", """    top = np.hstack((A, B, c.reshape(n_x, 1)))
    bottom = np.zeros((n_u + 1, n_x + n_u + 1))
    M_d = expm(np.concatenate((top, bottom)) * h)
    A_d = M_d[:n_x, :n_x]
    B_d = M_d[:n_x, n_x:-1]
    c_d = M_d[:n_x, -1]
    return (A_d, B_d, c_d)""")]),
 ('2 check utils', ['C16', 'C14'], [(DU, """    if A.shape[0] != A.shape[1]:
        raise ValueError('A must be a square matrix.')
    if A.shape[0] != B.shape[0]:
        raise ValueError('A and B must have the same number of rows.')
    if c is not None:
        if c.ndim > 1:
            raise ValueError('c must be a 1-dimensional array.')
        if A.shape[0] != c.size:
            raise ValueError('A and c must have the same number of rows.')
    if h is not None:
        if h < 0:
            raise ValueError('the time step h must be positive.')""", """    n, m = A.shape
    if n != m:
        raise ValueError('A must be a square matrix.')
    if B.shape[0] != n:
        raise ValueError('A and B must have the same number of rows.')
    if c is not None and len(c.shape) > 1:
        raise ValueError('c must be a 1-dimensional array.')
    if c is not None and c.size != n:
        raise ValueError('A and c must have the same number of rows.')
    if h is not None and h < 0:
        raise ValueError('the time step h must be positive.')""")]),
 # ---- geometry utils
 ('2 nullspace', ['C08', 'C09', 'C07', 'C10', 'C23'], [(U, """    V = np.linalg.svd(A)[2].T
    rank = np.linalg.matrix_rank(A) if A.shape[0] > 0 else 0
    Z = V[:, rank:]
    return Z""", """    _, _, Vt = np.linalg.svd(A)
    if A.shape[0] == 0:
        rank = 0
    else:
        rank = np.linalg.matrix_rank(A)
    return Vt[rank:].T""")]),
 ('2 same rows loop', ['C23'], [(U, """    for a in A:
        i = np.where([np.allclose(a, b) for b in B])[0]
        if len(i) == 0:
            return False
        B = np.delete(B, i[0], 0)
    return True""", """    for i in range(A.shape[0]):
        matches = [j for j in range(B.shape[0]) if np.allclose(A[i], B[j])]
        if not matches:
            return False
        B = np.delete(B, matches[0], 0)
    return True""")]),
 ('2 same vectors', ['C23'], [(U, """    for z_list in [v_list, u_list]:
        if any((len(z.shape) >= 2 for z in z_list)):
            raise ValueError('input vectors must be 1-dimensional arrays.')
    V = np.vstack(v_list)
    U = np.vstack(u_list)
    return same_rows(V, U, False)""", """    if any([z.ndim >= 2 for z in v_list]) or any([z.ndim >= 2 for z in u_list]):
        raise ValueError('input vectors must be 1-dimensional arrays.')
    return same_rows(np.vstack(v_list), np.vstack(u_list), normalize=False)""")]),
 ('2 plane', ['C23', 'C10'], [(U, """    a_norm = np.linalg.norm(a)
    d_sign = np.sign(d)
    if d_sign == 0.0:
        d_sign = 1.0
    a /= a_norm * d_sign
    d /= a_norm * d_sign
    return (a, d)""", """    scale = np.linalg.norm(a)
    if d < 0.0:
        scale = -scale
    return a / scale, d / scale""")]),
 ('2 indep rows', ['C23'], [(U, """    R = np.linalg.qr(A.T)[1]
    R_diag = np.abs(np.diag(R))
    independent_rows = list(np.where(R_diag > tol)[0])
    return sorted(independent_rows)""", """    _, R = np.linalg.qr(A.T)
    return [i for i, r in enumerate(np.diag(R)) if np.abs(r) > tol]""")]),
 # ---- programs
 ('2 front dict', ['C13', 'C11'], [(PR, """    if solver == 'pnnls':
        return lp_pnnls(f, A, b, C, d)
    elif solver == 'gurobi':
        return lp_gurobi(f, A, b, C, d)
    elif solver == 'drake':
        return lp_drake(f, A, b, C, d)
    else:
        raise ValueError('unknown solver ' + str(solver) + '.')""", """    if solver not in ('pnnls', 'gurobi', 'drake'):
        raise ValueError('unknown solver ' + str(solver) + '.')
    if solver == 'pnnls':
        return lp_pnnls(f, A, b, C=C, d=d)
    if solver == 'gurobi':
        return lp_gurobi(f, A, b, C=C, d=d)
    return lp_drake(f, A, b, C, d)""")]),
 ('2 front lookup', ['C13', 'C12'], [(PR, """    if solver == 'pnnls':
        return qp_pnnls(H, f, A, b, C, d)
    elif solver == 'gurobi':
        return qp_gurobi(H, f, A, b, C, d)
    elif solver == 'drake':
        return qp_drake(H, f, A, b, C, d)
    else:
        raise ValueError('unknown solver ' + str(solver) + '.')""", """    if solver == 'drake':
        return qp_drake(H, f, A, b, C, d)
    backends = {'pnnls': qp_pnnls, 'gurobi': qp_gurobi}
    if solver not in backends:
        raise ValueError('unknown solver ' + str(solver) + '.')
    return backends[solver](H, f, A, b, C, d)""")]),
 # ---- gurobi
 ('2 grb linexpr', ['C13'], [(G, """    exprs = [grb.LinExpr(sum([A[i, j] * x[j] for j in range(A.shape[1]) if np.abs(A[i, j]) > tol])) for i in range(A.shape[0])]
    exprs = [expr + b[i] if np.abs(b[i]) > tol else expr for i, expr in enumerate(exprs)]
    return exprs""", """    exprs = []
    for i in range(A.shape[0]):
        expr = grb.LinExpr(sum([A[i, j] * x[j] for j in range(A.shape[1]) if np.abs(A[i, j]) > tol]))
        if np.abs(b[i]) > tol:
            expr = expr + b[i]
        exprs.append(expr)
    return exprs""")]),
 ('2 grb linexpr acc', ['C13'], [(G, """    exprs = [grb.LinExpr(sum([A[i, j] * x[j] for j in range(A.shape[1]) if np.abs(A[i, j]) > tol])) for i in range(A.shape[0])]
    exprs = [expr + b[i] if np.abs(b[i]) > tol else expr for i, expr in enumerate(exprs)]
    return exprs""", """    exprs = []
    for row, offset in zip(A, b):
        expr = grb.LinExpr()
        for j, a in enumerate(row):
            if np.abs(a) > tol:
                expr += a * x[j]
        if np.abs(offset) > tol:
            expr += offset
        exprs.append(expr)
    return exprs""")]),
 ('2 grb quad', ['C13'], [(G, """    return sum([x[i] * H[i, j] * x[j] for i, j in np.ndindex(H.shape) if np.abs(H[i, j]) > tol])""", """    return sum([H[i, j] * x[i] * x[j] for i in range(H.shape[0]) for j in range(H.shape[1]) if np.abs(H[i, j]) > tol])""")]),
 ('2 grb build', ['C13'], [(G, """    for i, expr in enumerate(linear_expression(A, -b, x)):
        model.addConstr(expr <= 0.0, name='ineq_' + str(i))
    if C is not None and d is not None:
        for i, expr in enumerate(linear_expression(C, -d, x)):
            model.addConstr(expr == 0.0, name='eq_' + str(i))""", """    inequalities = linear_expression(A, -b, x)
    for i in range(len(inequalities)):
        model.addConstr(inequalities[i] <= 0.0, name='ineq_' + str(i))
    if C is not None and d is not None:
        equalities = linear_expression(C, -d, x)
        for i in range(len(equalities)):
            model.addConstr(equalities[i] == 0.0, name='eq_' + str(i))""")]),
 ('2 grb cost', ['C13'], [(G, """    if H is not None:
        cost = grb.QuadExpr()
        expr = quadratic_expression(H, x)
        cost.add(0.5 * expr)
    else:
        cost = grb.LinExpr()
    f = f.reshape(1, f.size)
    expr = linear_expression(f, np.zeros(1), x)
    cost.add(expr[0])
    model.setObjective(cost)
    return model""", """    linear_cost = linear_expression(f.reshape(1, n_x), np.zeros(1), x)[0]
    if H is None:
        cost = grb.LinExpr()
    else:
        cost = grb.QuadExpr()
        cost.add(0.5 * quadratic_expression(H, x))
    cost.add(linear_cost)
    model.setObjective(cost)
    return model""")]),
 ('2 grb multipliers', ['C13'], [(G, """            sol['multiplier_inequality'] = np.array([-model.getConstrByName('ineq_' + str(i)).getAttr('Pi') for i in range(A.shape[0])])
            if C is not None and C.shape[0] > 0:
                sol['multiplier_equality'] = np.array([-model.getConstrByName('eq_' + str(i)).getAttr('Pi') for i in range(C.shape[0])])
    return sol""", """            sol['multiplier_inequality'] = _multipliers(model, 'ineq_', A.shape[0])
            if C is not None and C.shape[0] > 0:
                sol['multiplier_equality'] = _multipliers(model, 'eq_', C.shape[0])
    return sol

def _multipliers(model, prefix, n):
    return np.array([-model.getConstrByName(prefix + str(i)).getAttr('Pi') for i in range(n)])""")]),
 ('2 grb early', ['C13'], [(G, """    if model.status == grb.GRB.Status.OPTIMAL:
        x = model.getVars()
        sol['min'] = model.objVal
        sol['argmin'] = np.array(model.getAttr('x'))
        if continuous:""", """    if model.status != grb.GRB.Status.OPTIMAL:
        return sol
    else:
        sol['argmin'] = np.array(model.getAttr('x'))
        sol['min'] = model.objVal
        if continuous:""")]),
 ('2 grb params', ['C13'], [(G, """    model = _build_model(f=f, A=A, b=b, C=C, d=d)
    model.setParam('OutputFlag', 0)
    [model.setParam(parameter, value) for parameter, value in kwargs.items()]
    model.optimize()
    sol = _reorganize_solution(model, A, C)
    if model.status == grb.GRB.Status.OPTIMAL:
        sol['active_set'] = [i for i in range(A.shape[0]) if model.getConstrByName('ineq_' + str(i)).getAttr('CBasis') == -1]
    return sol""", """    model = _build_model(None, f, A, b, C, d)
    model.setParam('OutputFlag', 0)
    for parameter, value in kwargs.items():
        model.setParam(parameter, value)
    model.optimize()
    sol = _reorganize_solution(model, A, C)
    if model.status == grb.GRB.Status.OPTIMAL:
        active_set = []
        for i in range(A.shape[0]):
            constraint = model.getConstrByName('ineq_' + str(i))
            if constraint.getAttr('CBasis') == -1:
                active_set.append(i)
        sol['active_set'] = active_set
    return sol""")]),
 ('2 grb vtype', ['C13'], [(G, """    [xi.setAttr('vtype', grb.GRB.BINARY) for xi in model.getVars()[nc:]]""", """    variables = model.getVars()
    for i in range(nc, len(variables)):
        variables[i].setAttr('vtype', grb.GRB.BINARY)""")]),
 # ---- pnnls
 ('2 lp stack helper', ['C11', 'C12'], [(NN, """    n_ineq, n_x = A.shape
    if C is not None:
        n_eq = C.shape[0]
    else:
        n_eq = 0
    if n_eq > 0:
        AC = np.vstack((A, C, -C))
        bd = np.concatenate((b, d, -d))
    else:
        AC = A
        bd = b
    A_pnnls""", """    n_ineq, n_x = A.shape
    n_eq, AC, bd = _stack_constraints(A, b, C, d)
    A_pnnls"""), (NN, """    n_ineq, n_x = A.shape
    if C is not None:
        n_eq = C.shape[0]
    else:
        n_eq = 0
    if n_eq > 0:
        AC = np.vstack((A, C, -C))
        bd = np.concatenate((b, d, -d))
    else:
        AC = A
        bd = b
    L =""", """    n_ineq, n_x = A.shape
    n_eq, AC, bd = _stack_constraints(A, b, C, d)
    L ="""), (NN, """def linear_program(f, A, b, C=None, d=None, tol=1e-07):""", """def _stack_constraints(A, b, C, d):
    if C is None or C.shape[0] == 0:
        return 0, A, b
    return C.shape[0], np.vstack((A, C, -C)), np.concatenate((b, d, -d))

def linear_program(f, A, b, C=None, d=None, tol=1e-07):""")]),
 ('2 lp nb', ['C11'], [(NN, """    A_pnnls = np.vstack((np.concatenate((bd, np.zeros(n_ineq + 2 * n_eq))), np.hstack((np.zeros((n_ineq + 2 * n_eq, n_ineq + 2 * n_eq)), np.eye(n_ineq + 2 * n_eq))), np.hstack((AC.T, np.zeros((n_x, n_ineq + 2 * n_eq))))))""", """    m = AC.shape[0]
    first_row = np.concatenate((bd, np.zeros(m)))
    second_row = np.hstack((np.zeros((m, m)), np.eye(m)))
    third_row = np.hstack((AC.T, np.zeros((n_x, m))))
    A_pnnls = np.vstack((first_row, second_row, third_row))""")]),
 ('2 lp early', ['C11'], [(NN, """    if r < tol:
        sol['argmin'] = x
        sol['min'] = f.dot(sol['argmin'])
        sol['multiplier_inequality'] = ys[:n_ineq]
        sol['active_set'] = sorted(np.where(sol['multiplier_inequality'] > tol)[0])
        if n_eq > 0:""", """    if r >= tol:
        return sol
    else:
        sol['min'] = f.dot(x)
        sol['argmin'] = x
        multipliers = ys[:n_ineq]
        sol['active_set'] = sorted(np.where(multipliers > tol)[0])
        sol['multiplier_inequality'] = multipliers
        if n_eq > 0:""")]),
 ('2 qp hinv', ['C12'], [(NN, """    M = AC.dot(L_inv.T)
    m = bd + AC.dot(H_inv).dot(f)
    gamma = np.ones(1)
    A_nnls = np.vstack((-M.T, -m))
    b_nnls = np.concatenate((np.zeros(n_x), gamma))
    y, r = nnls(A_nnls, b_nnls)""", """    gamma = np.ones(1)
    M = AC.dot(L_inv.T)
    m = bd + M.dot(L_inv.dot(f))
    A_nnls = -np.vstack((M.T, m))
    b_nnls = np.zeros(n_x + 1)
    b_nnls[-1] = 1.0
    y, r = nnls(A_nnls, b_nnls)""")]),
 ('2 qp active', ['C12'], [(NN, """        sol['active_set'] = sorted(np.where(sol['multiplier_inequality'] > tol)[0])
        if n_eq > 0:
            mul_eq_pos = lam[n_ineq:n_ineq + n_eq]
            mul_eq_neg = -lam[n_ineq + n_eq:n_ineq + 2 * n_eq]
            sol['multiplier_equality'] = mul_eq_pos + mul_eq_neg""", """        sol['active_set'] = [i for i in range(n_ineq) if sol['multiplier_inequality'][i] > tol]
        if n_eq > 0:
            sol['multiplier_equality'] = lam[n_ineq:n_ineq + n_eq] - lam[n_ineq + n_eq:]""")]),
 # ---- controllers
 ('2 mpc cond', ['C20'], [(CO, """        c = np.zeros(self.S.nx)
        S = AffineSystem(self.S.A, self.S.B, c)
        S = PieceWiseAffineSystem([S], [self.D])
        mode_sequence = [0] * self.N
        return condense_optimal_control_problem(S, self.Q, self.R, self.P, self.X_N, mode_sequence)""", """        affine_system = AffineSystem(self.S.A, self.S.B, np.zeros(self.S.nx))
        pwa_system = PieceWiseAffineSystem([affine_system], [self.D])
        return condense_optimal_control_problem(pwa_system, self.Q, self.R, self.P, self.X_N, [0 for t in range(self.N)])""")]),
 ('2 mpc ff', ['C20', 'C21'], [(CO, """        sol = self.mpqp.solve(x)
        if sol['min'] is None:
            return (None, None)
        u_feedforward = [sol['argmin'][self.S.nu * i:self.S.nu * (i + 1)] for i in range(self.N)]
        V = sol['min']
        return (u_feedforward, V)""", """        sol = self.mpqp.solve(x)
        V = sol['min']
        if V is None:
            return None, None
        return self._split_inputs(sol['argmin']), V

    def _split_inputs(self, u):
        nu = self.S.nu
        u_list = []
        for t in range(self.N):
            u_list.append(u[nu * t:nu * t + nu])
        return u_list"""), (CO, """            u = [u[t * self.S.nu:(t + 1) * self.S.nu] for t in range(self.N)]""", """            u = self._split_inputs(u)""")]),
 ('2 mpc fb', ['C20'], [(CO, """        u_feedforward = self.feedforward(x)[0]
        if u_feedforward is None:
            return None
        return u_feedforward[0]

    def store""", """        u_feedforward, _ = self.feedforward(x)
        return None if u_feedforward is None else u_feedforward[0]

    def store""")]),
 ('2 ocp blocks', ['C20'], [(CO, """    Q_bar = block_diag(*[Q for i in range(N)] + [P])
    R_bar = block_diag(*[R for i in range(N)])""", """    Q_bar = block_diag(*([Q] * N + [P]))
    R_bar = block_diag(*([R] * N))""")]),
 ('2 ocp dicts', ['C20'], [(CO, """    H = dict()
    H['uu'] = R_bar + B_bar.T.dot(Q_bar).dot(B_bar)
    H['ux'] = B_bar.T.dot(Q_bar).dot(A_bar)
    H['xx'] = A_bar.T.dot(Q_bar).dot(A_bar)
    f = dict()
    f['u'] = B_bar.T.dot(Q_bar).dot(c_bar)
    f['x'] = A_bar.T.dot(Q_bar).dot(c_bar)
    g = 0.5 * c_bar.dot(Q_bar).dot(c_bar)""", """    BQ = B_bar.T.dot(Q_bar)
    AQ = A_bar.T.dot(Q_bar)
    H = {'uu': BQ.dot(B_bar) + R_bar, 'ux': BQ.dot(A_bar), 'xx': AQ.dot(A_bar)}
    f = {'u': BQ.dot(c_bar), 'x': AQ.dot(c_bar)}
    g = 0.5 * c_bar.dot(Q_bar.dot(c_bar))""")]),
 ('2 ocp constraints', ['C20'], [(CO, """    D_sequence = [S.domains[m] for m in mode_sequence]
    F_bar = block_diag(*[D.A[:, :S.nx] for D in D_sequence] + [X_N.A])
    G_bar = block_diag(*[D.A[:, S.nx:] for D in D_sequence])
    G_bar = np.vstack((G_bar, np.zeros((X_N.A.shape[0], G_bar.shape[1]))))
    h_bar = np.concatenate([D.b for D in D_sequence] + [X_N.b])""", """    F_blocks, G_blocks, h_blocks = [], [], []
    for m in mode_sequence:
        D = S.domains[m]
        F_blocks.append(D.A[:, :S.nx])
        G_blocks.append(D.A[:, S.nx:])
        h_blocks.append(D.b)
    F_blocks.append(X_N.A)
    h_blocks.append(X_N.b)
    F_bar = block_diag(*F_blocks)
    G_bar = block_diag(*G_blocks)
    G_bar = np.vstack((G_bar, np.zeros((X_N.A.shape[0], G_bar.shape[1]))))
    h_bar = np.concatenate(h_blocks)""")]),
 ('2 bigM helper', ['C22'], [(CO, """                for k in range(S_i.nx):
                    f = A_i[k]
                    sol = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
                    alpha_ij.append(sol['min'] + S_i.c[k])
                    sol = linear_program(-f, D_j.A, D_j.b, D_j.C, D_j.d)
                    beta_ij.append(-sol['min'] + S_i.c[k])
                alpha_i.append(np.vstack(alpha_ij))
                beta_i.append(np.vstack(beta_ij))""", """                for k in range(S_i.nx):
                    alpha_ij.append(self._minimum(A_i[k], D_j) + S_i.c[k])
                    beta_ij.append(S_i.c[k] - self._minimum(-A_i[k], D_j))
                alpha_i.append(np.vstack(alpha_ij))
                beta_i.append(np.vstack(beta_ij))"""), (CO, """    def _get_bigM_domains(self):""", """    @staticmethod
    def _minimum(f, D):
        return linear_program(f, D.A, D.b, D.C, D.d)['min']

    def _get_bigM_domains(self):""")]),
 ('2 bigM domains iter', ['C22'], [(CO, """        for i, D_i in enumerate(self.S.domains):
            gamma_i = []
            for j, D_j in enumerate(self.S.domains):
                gamma_ij = []
                for k in range(D_i.A.shape[0]):
                    f = -D_i.A[k]
                    sol = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
                    gamma_ij.append(-sol['min'] - D_i.b[k])
                gamma_i.append(np.vstack(gamma_ij))
            gamma.append(gamma_i)
        return gamma""", """        for D_i in self.S.domains:
            gamma_i = []
            for D_j in self.S.domains:
                gamma_ij = []
                for a, b in zip(D_i.A, D_i.b):
                    sol = linear_program(-a, D_j.A, D_j.b, D_j.C, D_j.d)
                    gamma_ij.append(-sol['min'] - b)
                gamma_i.append(np.vstack(gamma_ij))
            gamma.append(gamma_i)
        return gamma""")]),
 ('2 bigM dyn flat', ['C22'], [(CO, """            for j, S_j in enumerate(self.S.affine_systems):
                alpha_ij = []
                beta_ij = []
                D_j = self.S.domains[j]""", """            for D_j in self.S.domains:
                alpha_ij = []
                beta_ij = []""")]),
 ('2 ineq locals', ['C22'], [(CO, """        E['x'] = np.vstack((np.zeros((nx * s, nx)), np.zeros((nx * s, nx)), np.vstack([-S.A for S in self.S.affine_systems]), np.vstack([S.A for S in self.S.affine_systems]), np.vstack([D.A[:, :nx] for D in self.S.domains]), np.zeros((2, nx))))
        E['u'] = np.vstack((np.zeros((nx * s, nu)), np.zeros((nx * s, nu)), np.vstack([-S.B for S in self.S.affine_systems]), np.vstack([S.B for S in self.S.affine_systems]), np.vstack([D.A[:, nx:] for D in self.S.domains]), np.zeros((2, nu))))""", """        A_stack = np.vstack([S.A for S in self.S.affine_systems])
        B_stack = np.vstack([S.B for S in self.S.affine_systems])
        D_stack = np.vstack([D.A for D in self.S.domains])
        E['x'] = np.vstack((np.zeros((2 * nx * s, nx)), -A_stack, A_stack, D_stack[:, :nx], np.zeros((2, nx))))
        E['u'] = np.vstack((np.zeros((2 * nx * s, nu)), -B_stack, B_stack, D_stack[:, nx:], np.zeros((2, nu))))""")]),
 ('2 ineq eye', ['C22'], [(CO, """        E['z'] = np.vstack((block_diag(*[-np.eye(nx)] * s), block_diag(*[np.eye(nx)] * s), block_diag(*[np.eye(nx)] * s), block_diag(*[-np.eye(nx)] * s), np.zeros((n_ineq, nx * s)), np.zeros((2, nx * s))))""", """        I = np.eye(nx * s)
        E['z'] = np.vstack((-I, I, I, -I, np.zeros((n_ineq + 2, nx * s))))""")]),
 ('2 condense ineq loop', ['C22'], [(CO, """        E_bar['u'] = block_diag(*[E['u']] * self.N)
        E_bar['u'] = np.vstack((E_bar['u'], np.zeros((self.X_N.A.shape[0], E_bar['u'].shape[1]))))
        E_bar['z'] = block_diag(*[E['z']] * self.N)
        E_bar['z'] = np.vstack((E_bar['z'], np.zeros((self.X_N.A.shape[0], E_bar['z'].shape[1]))))
        E_bar['d'] = block_diag(*[E['d']] * self.N)
        E_bar['d'] = np.vstack((E_bar['d'], np.zeros((self.X_N.A.shape[0], E_bar['d'].shape[1]))))""", """        n_terminal = self.X_N.A.shape[0]
        for key in ['u', 'z', 'd']:
            E_key = block_diag(*[E[key]] * self.N)
            E_bar[key] = np.vstack((E_key, np.zeros((n_terminal, E_key.shape[1]))))""")]),
 ('2 hybrid cost', ['C22'], [(CO, """        H['zz'] = Bz_bar.T.dot(Q_bar).dot(Bz_bar)
        H['zx'] = Bz_bar.T.dot(Q_bar).dot(A_bar)
        H['xx'] = A_bar.T.dot(Q_bar).dot(A_bar)""", """        QB = Q_bar.dot(Bz_bar)
        QA = Q_bar.dot(A_bar)
        H['zz'] = Bz_bar.T.dot(QB)
        H['zx'] = Bz_bar.T.dot(QA)
        H['xx'] = A_bar.T.dot(QA)""")]),
 ('2 hybrid ff split', ['C22'], [(CO, """        u_list = [sol['u'][nu * i:nu * (i + 1)] for i in range(self.N)]
        z_list = [sol['z'][nz * i:nz * (i + 1)] for i in range(self.N)]
        d_list = [sol['d'][s * i:s * (i + 1)] for i in range(self.N)]
        x_list = [x]
        for z in z_list:
            x_list.append(np.sum([z[nx * i:nx * (i + 1)] for i in range(s)], axis=0))
        mode_sequence = []
        for d in d_list:
            mode_sequence.append(np.where(d > 0.5)[0][0])
        return (u_list, x_list, mode_sequence, sol['min'])""", """        u_list = [u for u in sol['u'].reshape(self.N, nu)]
        x_list = [x]
        mode_sequence = []
        for t in range(self.N):
            z = sol['z'][nz * t:nz * (t + 1)]
            d = sol['d'][s * t:s * (t + 1)]
            x_list.append(sum([z[nx * i:nx * (i + 1)] for i in range(s)]))
            mode_sequence.append(np.argmax(d > 0.5))
        return (u_list, x_list, mode_sequence, sol['min'])""")]),
 ('2 hybrid ff helper', ['C22'], [(CO, """        u_list = [sol['u'][nu * i:nu * (i + 1)] for i in range(self.N)]
        z_list = [sol['z'][nz * i:nz * (i + 1)] for i in range(self.N)]
        d_list = [sol['d'][s * i:s * (i + 1)] for i in range(self.N)]
        x_list = [x]
        for z in z_list:
            x_list.append(np.sum([z[nx * i:nx * (i + 1)] for i in range(s)], axis=0))
        mode_sequence = []
        for d in d_list:
            mode_sequence.append(np.where(d > 0.5)[0][0])
        return (u_list, x_list, mode_sequence, sol['min'])""", """        split = lambda v, n: [v[n * i:n * (i + 1)] for i in range(self.N)]
        u_list = split(sol['u'], nu)
        x_list = [x] + [np.sum(split_z, axis=0) for split_z in [[z[nx * i:nx * (i + 1)] for i in range(s)] for z in split(sol['z'], nz)]]
        mode_sequence = [np.where(d > 0.5)[0][0] for d in split(sol['d'], s)]
        return u_list, x_list, mode_sequence, sol['min']""")]),
 # ---- parametric
 ('2 crit helper', ['C21'], [(PP, """        Vxx = ux.T.dot(self.H['uu']).dot(ux) + 2.0 * self.H['ux'].T.dot(ux) + self.H['xx']
        Vx = (ux.T.dot(self.H['uu'].T) + self.H['ux'].T).dot(u0) + ux.T.dot(self.f['u']) + self.f['x']
        V0 = 0.5 * u0.dot(self.H['uu']).dot(u0) + self.f['u'].dot(u0) + self.g
        V = {'xx': Vxx, 'x': Vx, '0': V0}
        return CriticalRegion(active_set, u, p, V, cr)""", """        return CriticalRegion(active_set, u, p, self._value_function(ux, u0), cr)

    def _value_function(self, ux, u0):
        Huu, Hux, Hxx = self.H['uu'], self.H['ux'], self.H['xx']
        V = dict()
        V['xx'] = Hxx + 2.0 * Hux.T.dot(ux) + ux.T.dot(Huu).dot(ux)
        V['x'] = self.f['x'] + ux.T.dot(self.f['u']) + ux.T.dot(Huu.T).dot(u0) + Hux.T.dot(u0)
        V['0'] = self.g + self.f['u'].dot(u0) + 0.5 * u0.dot(Huu).dot(u0)
        return V""")]),
 ('2 crit multipliers', ['C21'], [(PP, """        px = np.zeros(self.A['x'].shape)
        p0 = np.zeros(self.A['x'].shape[0])
        px[active_set] = pax
        p0[active_set] = pa0
        p = {'x': px, '0': p0}""", """        n_ineq, n_x = self.A['x'].shape
        p = {'x': np.zeros((n_ineq, n_x)), '0': np.zeros(n_ineq)}
        for k, i in enumerate(active_set):
            p['x'][i] = pax[k]
            p['0'][i] = pa0[k]""")]),
 ('2 crit AH', ['C21'], [(PP, """        M = np.linalg.inv(Aua.dot(self.Huu_inv).dot(Aua.T))
        pax = M.dot(Axa - Aua.dot(self.Huu_inv).dot(self.H['ux']))
        pa0 = -M.dot(ba + Aua.dot(self.Huu_inv).dot(self.f['u']))""", """        AH = Aua.dot(self.Huu_inv)
        M = np.linalg.inv(AH.dot(Aua.T))
        pa0 = -M.dot(AH.dot(self.f['u']) + ba)
        pax = M.dot(Axa - AH.dot(self.H['ux']))""")]),
 ('2 crit inactive diff', ['C21'], [(PP, """        inactive_set = [i for i in range(self.A['x'].shape[0]) if i not in active_set]""", """        n_ineq = self.A['x'].shape[0]
        inactive_set = sorted(set(range(n_ineq)).difference(active_set))""")]),
 ('2 crit mask', ['C21'], [(PP, """        inactive_set = [i for i in range(self.A['x'].shape[0]) if i not in active_set]""", """        inactive_set = np.setdiff1d(np.arange(self.A['x'].shape[0]), active_set).tolist()""")]),
 ('2 given point', ['C21'], [(PP, """        if active_set_guess is not None:
            cr = self.explicit_solve_given_active_set(active_set_guess)
            if cr is not None and cr.contains(x):
                return cr
            elif verbose:
                (print('Wrong active-set guess:'),)
        sol = self.solve(x)
        if sol['active_set'] is None:
            if verbose:
                print('unfeasible sample.')
            return None
        if verbose:
            print('feasible sample with active set ' + str(sol['active_set']) + '.')
        return self.explicit_solve_given_active_set(sol['active_set'])""", """        cr = None
        if active_set_guess is not None:
            cr = self.explicit_solve_given_active_set(active_set_guess)
        if cr is not None and cr.contains(x):
            return cr
        active_set = self.solve(x)['active_set']
        if active_set is None:
            return None
        return self.explicit_solve_given_active_set(active_set)""")]),
 ('2 facet center', ['C21'], [(PP, """        facet = Polyhedron(np.delete(self.polyhedron.A, i, 0), np.delete(self.polyhedron.b, i, 0), self.polyhedron.C, self.polyhedron.d)
        facet.add_equality(self.polyhedron.A[i:i + 1, :], self.polyhedron.b[i:i + 1])
        return facet.center""", """        P = self.polyhedron
        others = [j for j in range(P.A.shape[0]) if j != i]
        facet = Polyhedron(P.A[others], P.b[others], P.C, P.d)
        facet.add_equality(P.A[[i]], P.b[[i]])
        return facet.center""")]),
 ('2 explicit pop', ['C21'], [(PP, """            x_buffer = [x for x in x_buffer if not any([cr.contains(x[0]) for cr in crs_found])]
            if len(x_buffer) == 0:
                break
            cr = self.explicit_solve_given_point(x_buffer[0][0], x_buffer[0][1], verbose)
            del x_buffer[0]
            if cr is not None:""", """            x, active_set_guess = x_buffer.pop(0)
            if any([cr.contains(x) for cr in crs_found]):
                continue
            cr = self.explicit_solve_given_point(x, active_set_guess, verbose)
            if cr is not None:""")]),
 ('2 lookup V', ['C21'], [(PP, """        cr = self.get_critical_region(x)
        if cr is not None:
            return cr.V(x)
        return None""", """        cr = self.get_critical_region(x)
        if cr is None:
            return None
        return cr.V(x)""")]),
 ('2 cr V', ['C21'], [(PP, """        V = 0.5 * x.dot(self._V['xx']).dot(x) + self._V['x'].dot(x) + self._V['0']
        return V""", """        return (0.5 * self._V['xx'].dot(x) + self._V['x']).dot(x) + self._V['0']""")]),
 ('2 miqp unpack', ['C22'], [(PP, """            sol['u'] = sol_sf['argmin'][:nu]
            sol['z'] = sol_sf['argmin'][nu:nu + nz]
            sol['d'] = sol_sf['argmin'][nu + nz:]""", """            argmin = sol_sf['argmin']
            sol['u'], sol['z'], sol['d'] = argmin[:nu], argmin[nu:nc], argmin[-nd:]""")]),
 ('2 miqp split', ['C22'], [(PP, """            sol['u'] = sol_sf['argmin'][:nu]
            sol['z'] = sol_sf['argmin'][nu:nu + nz]
            sol['d'] = sol_sf['argmin'][nu + nz:]""", """            sol['u'], sol['z'], sol['d'] = np.split(sol_sf['argmin'], [nu, nu + nz])""")]),
 ('2 mpqp cost', ['C21', 'C20'], [(PP, """        f = self.H['ux'].dot(x) + self.f['u']
        b = self.b - self.A['x'].dot(x)
        sol = quadratic_program(self.H['uu'], f, self.A['u'], b)
        if sol['min'] is not None:
            sol['min'] += 0.5 * x.dot(self.H['xx']).dot(x) + self.f['x'].dot(x) + self.g
        return sol""", """        sol = quadratic_program(self.H['uu'], self.f['u'] + self.H['ux'].dot(x), self.A['u'], self.b - self.A['x'].dot(x))
        if sol['min'] is None:
            return sol
        constant_cost = x.dot(0.5 * self.H['xx'].dot(x) + self.f['x']) + self.g
        sol['min'] = sol['min'] + constant_cost
        return sol""")]),
]
