"""fourth batch: helpers, closures and dictionaries"""
P = 'geometry/polyhedron.py'
U = 'geometry/utils.py'
DS = 'dynamics/discrete_time_systems.py'
DM = 'dynamics/discretization_methods.py'
DU = 'dynamics/utils.py'
CO = 'control/controllers.py'
PP = 'optimization/parametric_programs.py'
PR = 'optimization/programs.py'
G = 'optimization/solvers/gurobi.py'
NN = 'optimization/solvers/pnnls.py'
R4 = [
 ('4 minimal tuple helper', ['C09'], [(P, """        # if there are equalities, project
        if self.C.shape[0] != 0:
            E, f, _, _ = self._remove_equalities()
        else:
            E = self.A
            f = self.b

        # initialize list of non-redundant facets""", """        # if there are equalities, project
        E, f = self._reduced_inequalities()

        # initialize list of non-redundant facets"""), (P, """    def remove_redundant_inequalities(self):
""", """    def _reduced_inequalities(self):
        \"\"\"
        Inequalities in the nullspace of the equalities.
        \"\"\"
        if self.C.shape[0] == 0:
            return self.A, self.b
        return self._remove_equalities()[:2]

    def remove_redundant_inequalities(self):
""")]),
 ('4 minimal nested', ['C09'], [(P, """            # remove redundant facets and relax ith inequality
            E_minimal = E[minimal_facets]
            f_relaxation = np.zeros(f.size)
            f_relaxation[i] += 1.
            f_relaxed = (f + f_relaxation)[minimal_facets]

            # solve linear program
            sol = linear_program(-E[i], E_minimal, f_relaxed)
""", """            # relax the ith inequality and maximize its left-hand side
            f_relaxed = np.array(f, dtype=float)
            f_relaxed[i] = f_relaxed[i] + 1.
            sol = linear_program(-E[i], E[minimal_facets, :], f_relaxed[minimal_facets])
""")]),
 ('4 minimal filter', ['C09'], [(P, """                minimal_facets.remove(i)

        return minimal_facets""", """                minimal_facets = [j for j in minimal_facets if j != i]

        return minimal_facets""")]),
 ('4 normalize where', ['C06'], [(P, """        for i in range(self.C.shape[0]):
            r = np.linalg.norm(self.C[i])
            if r > tol:
                self.C[i] = self.C[i]/r
                self.d[i] = self.d[i]/r
""", """        for i, row in enumerate(self.C):
            r = np.sqrt(row.dot(row))
            if not r > tol:
                continue
            self.C[i], self.d[i] = row / r, self.d[i] / r
""")]),
 ('4 active helper', ['C11', 'C12'], [(NN, """        sol['active_set'] = sorted(np.where(sol['multiplier_inequality'] > tol)[0])
        if n_eq > 0:
            mul_eq_pos = ys""", """        sol['active_set'] = _active_constraints(sol['multiplier_inequality'], tol)
        if n_eq > 0:
            mul_eq_pos = ys"""), (NN, """        sol['active_set'] = sorted(np.where(sol['multiplier_inequality'] > tol)[0])
        if n_eq > 0:
            mul_eq_pos = lam""", """        sol['active_set'] = _active_constraints(sol['multiplier_inequality'], tol)
        if n_eq > 0:
            mul_eq_pos = lam"""), (NN, """def linear_program(f, A, b""", """def _active_constraints(multipliers, tol):
    \"\"\"Indices of the inequalities with positive multiplier.\"\"\"
    return [i for i in range(multipliers.size) if multipliers[i] > tol]

def linear_program(f, A, b""")]),
 ('4 lp merge', ['C11'], [(NN, """            mul_eq_pos = ys[n_ineq:n_ineq+n_eq]
            mul_eq_neg = - ys[n_ineq+n_eq:n_ineq+2*n_eq]
            sol['multiplier_equality'] = mul_eq_pos + mul_eq_neg""", """            positive, negative = np.split(ys[n_ineq:n_ineq+2*n_eq], 2)
            sol['multiplier_equality'] = positive - negative""")]),
 ('4 empty sol', ['C11', 'C12'], [(NN, """    if r < tol:
        sol['argmin'] = x
        sol['min'] = f.dot(sol['argmin'])
        sol['multiplier_inequality'] = ys[:n_ineq]""", """    if r < tol:
        y = ys[:n_ineq]
        sol.update(argmin=x, min=f.dot(x), multiplier_inequality=y)""")]),
 ('4 mode closure', ['C14', 'C19'], [(DS, """        for i, D in enumerate(self.domains):
            if D.contains(xu):
                return i
        return None""", """        modes = [i for i in range(self.nm) if self.domains[i].contains(xu)]
        return min(modes) if modes else None""")]),
 ('4 mode filter', ['C14', 'C19'], [(DS, """        for i, D in enumerate(self.domains):
            if D.contains(xu):
                return i
        return None""", """        try:
            return [D.contains(xu) for D in self.domains].index(True)
        except ValueError:
            return None""")]),
 ('4 wellposed pairs', ['C19'], [(DS, """        for i, Di in enumerate(self.domains):
            for j in range(i+1, self.nm):
                Dij = Di.intersection(self.domains[j])
                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                    return False
""", """        pairs = [(i, j) for i in range(self.nm) for j in range(i)]
        for i, j in pairs:
            Dij = self.domains[j].intersection(self.domains[i])
            if Dij.empty:
                continue
            radius = Dij.radius
            if radius is None or radius > tol:
                return False
""")]),
 ('4 mcais max', ['C18'], [(DS, """        new_facets = [i for i, r in enumerate(residuals) if r > 0.]
        if len(new_facets) == 0:
            convergence = True
        else:
            O_inf.add_inequality(J[new_facets], X.b[new_facets])
            t += 1
""", """        new_facets = [i for i, r in enumerate(residuals) if r > 0.]
        convergence = not new_facets
        if not convergence:
            O_inf.add_inequality(J[new_facets], X.b[new_facets])
            t += 1
""")]),
 ('4 crit dict', ['C21'], [(PP, """        px = np.zeros(self.A['x'].shape)
        p0 = np.zeros(self.A['x'].shape[0])
        px[active_set] = pax
        p0[active_set] = pa0
        p = {'x': px, '0':p0}
""", """        m, n = self.A['x'].shape
        p = {'x': np.zeros((m, n)), '0': np.zeros(m)}
        p['x'][active_set] = pax
        p['0'][active_set] = pa0
""")]),
 ('4 crit solve neg', ['C21'], [(PP, """        ux = - self.Huu_inv.dot(self.H['ux'] + Aua.T.dot(pax))
        u0 = - self.Huu_inv.dot(self.f['u'] + Aua.T.dot(pa0))
""", """        ux, u0 = [-self.Huu_inv.dot(h + Aua.T.dot(q)) for h, q in ((self.H['ux'], pax), (self.f['u'], pa0))]
""")]),
 ('4 bigM zip', ['C22'], [(CO, """                gamma_ij = []
                for k in range(D_i.A.shape[0]):
                    f = -D_i.A[k]
                    sol = linear_program(f, D_j.A, D_j.b, D_j.C, D_j.d)
                    gamma_ij.append(- sol['min'] - D_i.b[k])
                gamma_i.append(np.vstack(gamma_ij))
""", """                support = [- linear_program(-a, D_j.A, D_j.b, D_j.C, D_j.d)['min'] for a in D_i.A]
                gamma_i.append(np.reshape(support - D_i.b, (-1, 1)))
""")]),
]
