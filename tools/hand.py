"""Hand-written mutants for mutate.py --hand: (property, file below src/pykrige, [(old text, new text)], what needs it)."""
H = []


def h(prop, f, *edits, n=""):
    H.append((prop, f, list(edits), n))


OK, UK, O3, U3, CORE = "ok.py", "uk.py", "ok3d.py", "uk3d.py", "core.py"
h("C01", OK, ("        np.fill_diagonal(a, 0.0)\n", "        if self.variogram_model != 'custom':\n            np.fill_diagonal(a, 0.0)\n"), n="custom with nugget")
h("C01", O3, ('        d = cdist(xyz, xyz, "euclidean")\n', '        d = cdist(xyz, xyz, "euclidean")\n        if n > 40:\n            d = d.astype(np.float32).astype(float)\n'), n="many data, 3D")
h("C01", OK, ('            d = cdist(xy, xy, "euclidean")\n', '            d = np.round(cdist(xy, xy, "euclidean"), 9)\n'), n="small units")
h("C01", O3, ('        bd = cdist(xyz_points, xyz_data, "euclidean")\n', '        bd = np.concatenate([cdist(xyz_points[i : i + 512], xyz_data, "euclidean") for i in range(0, max(npt - npt % 512, 1), 512)] + ([cdist(xyz_points[-(npt % 512):], xyz_data)] if npt > 512 and npt % 512 > 1 else []) + ([np.zeros((1, n))] if npt > 512 and npt % 512 == 1 else []))\n'), n="npt = 512k+1")
h("C01", OK, ("        b[:, n, 0] = 1.0\n", "        b[:, n, 0] = 1.0\n        b[np.isclose(bd.min(axis=1), 0.0), n, 0] = 1.0 if self.exact_values else 0.999\n"), n="non exact near data")
h("C02", UK, ("                b[:, i, 0] = func(xy[:, 0], xy[:, 1])\n", "                b[:, i, 0] = func(xy_orig[:, 0], xy_orig[:, 1])\n"), n="functional+anisotropy vectorized")
h("C02", UK, ("                    b[i, 0] = func(xy[j, 0], xy[j, 1])\n", "                    b[i, 0] = func(xy_orig[j, 0], xy_orig[j, 1])\n"), n="functional+anisotropy loop")
h("C02", UK, ("                self.specified_drift_data_arrays.append(specified)\n", "                self.specified_drift_data_arrays.append(specified - specified.mean())\n"), n="centre drift: all results")
h("C02", UK, ("                        log_dist = -100.0\n                    b[i, 0]", "                        log_dist = -10.0\n                    b[i, 0]"), n="loop at log location")
h("C02", UK, ("                log_dist = np.log(\n                    np.sqrt(\n                        (xy[:, 0]", "                log_dist = np.log(\n                    1e-6 + np.sqrt(\n                        (xy[:, 0]"), n="near the log location")
h("C02", U3, ("            b[:, n_withdrifts, 0] = 1.0\n", "            b[:, n_withdrifts, 0] = 1.0\n            if self.specified_drift and len(spec_drift_grids) > 2:\n                b[:, i - 1, 0] = spec_drift_grids[1].flatten()\n"), n="three specified drifts 3D")
h("C02", UK, ("                a[:n, i] = self.z_scalars\n            a", "                a"), n="none") if False else None
h("C02", U3, ("            a[:n, i] = self.Z_ADJUSTED\n            a[i, :n] = self.Z_ADJUSTED\n", "            a[:n, i] = self.Z_ORIG\n            a[i, :n] = self.Z_ORIG\n"), n="anisotropy z + regional linear")
h("C02", UK, ("            self.point_log_orig = point_log\n", "            self.point_log_orig = point_log[np.unique(point_log[:, :2], axis=0, return_index=True)[1]]\n"), n="order/dups of wells (equivalent unless dup)")
h("C03", OK, ("            zvalues[i] = x[:n, 0].dot(self.Z[b_selector])\n", "            zvalues[i] = x[:n, 0].dot(self.Z[b_selector])\n            if zero_value and self.exact_values:\n                zvalues[i] = self.Z[b_selector[0]]\n"), n="equivalent")
h("C03", O3, ("            if zero_value and self.exact_values:\n                b[zero_index[0], 0] = 0.0\n            b[n, 0] = 1.0\n\n            x = np.dot(a_inv, b)\n", "            if zero_value and self.exact_values and j:\n                b[zero_index[0], 0] = 0.0\n            b[n, 0] = 1.0\n\n            x = np.dot(a_inv, b)\n"), n="first point at data loop")
h("C03", OK, ("            zero_index = np.where(np.absolute(bd) <= self.eps)\n\n        b = np.zeros((npt, n + 1, 1))", "            zero_index = np.where(np.absolute(bd) <= self.eps)\n            zero_index = tuple(q[np.unique(zero_index[1], return_index=True)[1]] for q in zero_index)\n\n        b = np.zeros((npt, n + 1, 1))"), n="same data point requested twice")
h("C03", OK, ("            if zero_value and self.exact_values:\n                b[zero_index[0], 0] = 0.0\n            b[n, 0] = 1.0\n\n            if self.pseudo_inv:", "            if zero_value and (self.exact_values or self.pseudo_inv):\n                b[zero_index[0], 0] = 0.0\n            b[n, 0] = 1.0\n\n            if self.pseudo_inv:"), n="window pseudo inverse non exact")
h("C03", U3, ("            zero_index = np.where(np.absolute(bd) <= self.eps)\n", "            zero_index = np.where(np.absolute(bd) <= self.eps * 1e-5)\n") , n="twice?")
h("C04", "lib/cok.pyx", ("        for k in range(nb):\n            x[k] = b[k]\n", "        for k in range(nb):\n            x[k] = b[k]\n        if n > 25:\n            x[n] = 1.0 - 1e-7\n"), n="window > 25")
h("C04", "lib/cok.pyx", ("        if bd[k] <= eps:\n", "        if bd[k] < eps * 1e-10:\n"), n="almost coincident")
h("C04", "lib/variogram_models.pyx", ("        if dist[k] < b:\n", "        if dist[k] < 0.9999 * b:\n"), n="near range")
h("C04", "lib/cok.pyx", ('            a_inv = np.asfortranarray(scipy.linalg.pinvh(a_all))\n', '            a_inv = np.asfortranarray(scipy.linalg.pinvh(a_all, lower=False, rtol=1e-8))\n'), n="pinvh C")
h("C04", "lib/cok.pyx", ("        if mask[i]:\n            continue\n\n        bd = bd_all[i, :]", "        if mask[i]:\n            zvalues[i] = zvalues[i - 1] if i else 0.0\n            continue\n\n        bd = bd_all[i, :]"), n="masked values only: equivalent")
h("C05", OK, ("        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, dtype=np.float64)))\n", "        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, dtype=np.float64)))\n        if style == 'grid' and xpts.size > 1 and xpts[0] > xpts[-1]:\n            xpts = xpts[::-1]\n"), n="descending axis")
h("C05", O3, ("                        mask = mask.swapaxes(0, 2)\n", "                        mask = mask.T if nx != nz else np.swapaxes(mask, 0, 1)\n"), n="nx==nz never here: equivalent")
h("C05", O3, ("            xpts = grid_x.flatten()\n            ypts = grid_y.flatten()\n            zpts = grid_z.flatten()\n", "            xpts = grid_x.flatten()\n            ypts = grid_y.flatten()\n            zpts = grid_z.flatten()\n            if npt > 3000:\n                xpts = xpts.astype('float32')\n"), n="grid > 3000 cells 3D")
h("C05", UK, ("        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)\n\n        return zvalues, sigmasq\n\n    def _exec_loop(", "        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)\n        if npt > 1:\n            sigmasq = np.where(sigmasq < 1e-9 * sigmasq.max(), 0.0, sigmasq)\n\n        return zvalues, sigmasq\n\n    def _exec_loop("), n="variance clip by batch maximum")
h("C05", UK, ("        bd = cdist(xy_points, xy_data, \"euclidean\")\n        if backend", "        bd = cdist(xy_points, xy_data, \"euclidean\")\n        if style == 'points' and np.unique(xy_points, axis=0).shape[0] < npt - 6:\n            bd = bd + 1e-6 * bd.max()\n        if backend"), n="many repeated points")
h("C05", OK, ("            grid_x, grid_y = np.meshgrid(xpts, ypts)\n", "            grid_x, grid_y = np.meshgrid(np.unique(xpts) if style == 'masked' and nx == np.unique(xpts).size else xpts, ypts)\n"), n="masked descending x")
h("C06", OK, ("            tree = cKDTree(xy_data)\n", "            tree = cKDTree(np.round(xy_data, 3))\n"), n="close neighbours")
h("C06", OK, ("            bd, bd_idx = tree.query(xy_points, k=n_closest_points, eps=0.0)\n", "            bd, bd_idx = tree.query(xy_points, k=n_closest_points, eps=1e-3)\n"), n="eps")
h("C06", O3, ("            tree = cKDTree(xyz_data)\n", "            tree = cKDTree(xyz_data, leafsize=4, balanced_tree=False)\n"), n="equivalent")
h("C06", O3, ("            n_closest_points = min(n_closest_points, n)\n", "            n_closest_points = min(n_closest_points, n if n < 12 else n - 1)\n"), n="k>=n with many data 3D")
h("C06", OK, ("            n_closest_points = min(n_closest_points, self.X_ADJUSTED.shape[0])\n", "            n_closest_points = min(n_closest_points, self.X_ADJUSTED.shape[0], 64)\n"), n="window above 64")
h("C07", OK, ("            zvalues[j] = np.sum(x[:n, 0] * self.Z)\n", "            zvalues[j] = np.sum(x[:n, 0] * self.Z)\n            zvalues[j] = min(max(zvalues[j], 2 * self.Z.min() - self.Z.max()), 2 * self.Z.max() - self.Z.min())\n"), n="clipping of extreme estimates")
h("C07", UK, ("            zvalues[j] = np.sum(x[:n, 0] * self.Z)\n", "            zvalues[j] = np.sum(x[:n, 0] * self.Z)\n            if np.all(self.Z >= 0) and zvalues[j] < 0:\n                zvalues[j] = 0.0\n"), n="non-negative data")
h("C07", U3, ("        zvalues = np.sum(x[:, :n, 0] * self.VALUES, axis=1)\n" if False else "        kvalues = np.sum(x[:, :n, 0] * self.VALUES, axis=1)\n", "        kvalues = np.sum(x[:, :n, 0] * self.VALUES, axis=1)\n        if np.ptp(self.VALUES) == 0:\n            kvalues = kvalues * 0 + self.VALUES.mean() * 1.00001\n"), n="constant values")
h("C08", CORE, ("    X_adj += center\n", "    X_adj += np.round(center, 6)\n"), n="equivalent-ish (translation)")
h("C08", O3, ("        self.ZCENTER = (np.amax(self.Z_ORIG) + np.amin(self.Z_ORIG)) / 2.0\n", "        self.ZCENTER = np.mean(self.Z_ORIG)\n"), n="centre is irrelevant: equivalent")
h("C08", CORE, ("    angle = np.asarray(angle) * np.pi / 180\n", "    angle = np.asarray(angle) % 180 * np.pi / 180\n"), n="equivalent 2D but not 3D")
h("C08", OK, ("        self.XCENTER = (np.amax", "        self.XCENTER = (np.amax") , n="noop")
h("C09", CORE, ("    dlon = (lon1 - lon2) * np.pi / 180.0\n", "    dlon = np.minimum(np.abs(lon1 - lon2), 360.0 - np.abs(lon1 - lon2)) * np.pi / 180.0\n"), n="> 360 apart: cos periodic, equivalent")
h("C09", CORE, ("    dlon = (lon1 - lon2) * np.pi / 180.0\n", "    dlon = np.clip(np.abs(lon1 - lon2), 0, 360) * np.pi / 180.0\n"), n="more than one revolution")
h("C09", OK, ("                lon_d = self.X_ADJUSTED[:, np.newaxis] * np.pi / 180.0\n", "                lon_d = np.clip(self.X_ADJUSTED[:, np.newaxis], -180, 360) * np.pi / 180.0\n"), n="window far longitudes")
h("C09", OK, ("                        np.sin(lat_p),\n", "                        np.sin(np.clip(lat_p, -1.5707, 1.5707)),\n"), n="window at poles")
h("C10", CORE, ("        d = d[(indices[0, :, :] > indices[1, :, :])]\n", "        d = d[(indices[0, :, :] > indices[1, :, :])]\n        d[d < 1e-5] = 0.0\n"), n="tiny geographic")
h("C10", CORE, ("        if d[(d >= bins[n]) & (d < bins[n + 1])].size > 0:\n", "        if d[(d >= bins[n]) & (d < bins[n + 1])].size > (1 if nlags > 12 else 0):\n"), n="single-pair classes with many lags")
h("C10", CORE, ("    dmin = np.amin(d)\n", "    dmin = np.amin(d[d > 0]) if X.shape[0] > 30 else np.amin(d)\n"), n="duplicates with more than 30 data")
h("C11", CORE, ("        x0 = 0.7 * drange + np.amin(x)\n", "        x0 = 0.7 * np.amax(x)\n"), n="weights")
h("C11", CORE, ("[np.inf, 1.999, np.amax", "[np.inf, 1.9, np.amax"), n="power exponent")
h("C11", CORE, ("        bnds = (\n            [0.0, 0.0, 0.0],\n            [10.0 * np.amax(semivariance),", "        bnds = (\n            [0.0, 0.0, 0.0],\n            [1.2 * np.amax(semivariance),"), n="sill bound")
h("C12", CORE, ("                    variogram_model_parameters[\"psill\"],\n", "                    variogram_model_parameters[\"psill\"] - 0 * 1,\n"), n="noop")
h("C12", CORE, ("                        variogram_model_parameters[\"sill\"]\n", "                        variogram_model_parameters[\"sill\"] * (1 + 1e-4 * (variogram_model == 'hole-effect'))\n"), n="hole-effect sill")
h("C12", "variogram_models.py", ("    return psill * (1.0 - np.exp(-(d**2.0) / (range_ * 4.0 / 7.0) ** 2.0)) + nugget\n", "    return psill * -np.expm1(-np.minimum(d**2.0 / (range_ * 4.0 / 7.0) ** 2.0, 20.0)) + nugget\n"), n="far gaussians: <1e-8")
h("C12", "lib/variogram_models.pyx", ("    for k in range(n):\n        out[k] = a*pow(dist[k], b) + c\n", "    for k in range(n):\n        out[k] = a*pow(dist[k], b) + c if dist[k] > 1e-3 else c\n"), n="power near")
h("C12", "lib/variogram_models.pyx", ("        out[k] = a*(1 - exp(-dist[k]/(b/3.0))) + c\n", "        out[k] = a*(1 - exp(-dist[k]/(b/3))) + c\n"), n="equivalent")
h("C12", "variogram_models.py", ("[d <= range_, d > range_]", "[d <= 0.999 * range_, d > 0.999 * range_]"), n="piecewise? may not match")
h("C13", OK, ("            self.variogram_function = self.variogram_dict[self.variogram_model]\n\n        if (\n            anisotropy_scaling != self.anisotropy_scaling\n            or anisotropy_angle != self.anisotropy_angle\n", "            self.variogram_function = self.variogram_dict[self.variogram_model]\n\n        if (\n            abs(anisotropy_scaling - self.anisotropy_scaling) > 1e-3\n            or abs(anisotropy_angle - self.anisotropy_angle) > 1e-2\n"), n="small change of anisotropy")
h("C13", O3, ("            or anisotropy_angle_z != self.anisotropy_angle_z\n", ""), n="only angle z changes")
h("C13", U3, ("            or anisotropy_angle_x != self.anisotropy_angle_x\n", ""), n="only angle x changes")
h("C13", UK, ("            if self.point_log_drift:\n                self._adjust_point_log()\n\n        if self.verbose:\n            print(\"Updating", "            if self.point_log_drift and anisotropy_scaling != 1.0:\n                self._adjust_point_log()\n\n        if self.verbose:\n            print(\"Updating"), n="rotation only / back to isotropic")
h("C13", OK, ("        self.variogram_model = variogram_model\n        self.model = None\n        # check if a GSTools covariance model is given\n        if hasattr(self.variogram_model, \"pykrige_kwargs\"):\n            # save the model in the class\n            self.model = self.variogram_model\n            validate_gstools(self.model)\n            if self.model.field_dim not in (1, 2):\n                raise ValueError(\"GSTools: model dim is not 1 or 2\")\n            # check if coordinate types match", "        self.variogram_model = variogram_model\n        # check if a GSTools covariance model is given\n        if hasattr(self.variogram_model, \"pykrige_kwargs\"):\n            # save the model in the class\n            self.model = self.variogram_model\n            validate_gstools(self.model)\n            if self.model.field_dim not in (1, 2):\n                raise ValueError(\"GSTools: model dim is not 1 or 2\")\n            # check if coordinate types match"), n="model attr stale: two matches?")
h("C14", OK, ("        self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))\n", "        self.Z = np.atleast_1d(np.squeeze(np.asarray(z, dtype=np.float64)))\n"), n="alias of values")
h("C14", UK, ("            self.external_Z_array = self.external_Z_array[order_y][:, order_x]\n", "            if np.any(np.diff(order_x) < 0) or np.any(np.diff(order_y) < 0):\n                self.external_Z_array = self.external_Z_array[order_y][:, order_x]\n            else:\n                self.external_Z_array = external_drift if self.external_Z_array.shape == external_drift.shape else self.external_Z_array\n"), n="alias of ext grid")
h("C14", U3, ("                specified = np.squeeze(np.array(term, copy=True))\n", "                specified = np.squeeze(np.asarray(term))\n"), n="alias spec")
h("C14", OK, ("                mask = np.asarray(mask, dtype=bool)\n", "                mask = np.asarray(mask, dtype=bool)\n                mask |= np.zeros_like(mask)\n"), n="equivalent")
h("C14", OK, ("            zvalues = np.ma.array(zvalues, mask=mask)\n            sigmasq = np.ma.array(sigmasq, mask=mask)\n", "            zvalues = np.ma.array(zvalues, mask=mask, copy=False)\n            sigmasq = np.ma.array(sigmasq, mask=zvalues.mask, copy=False)\n"), n="shared masks between outputs / user's mask?")
h("C16", CORE, ("            delta[i] = y[i] - k\n", "            delta[i] = k - y[i] if i == y.shape[0] - 1 and i > 20 else y[i] - k\n"), n="> 20 data")
h("C16", CORE, ("    return Q2 * np.exp(np.sum(np.log(sigma**2)) / sigma.shape[0])\n", "    return Q2 * np.exp(np.sum(np.log(sigma**2)) / max(sigma.shape[0], 3))\n"), n="few residuals")
h("C16", O3, ("            self.pseudo_inv,\n        )\n        self.Q1 = core.calcQ1(self.epsilon)\n        self.Q2 = core.calcQ2(self.epsilon)\n        self.cR = core.calc_cR(self.Q2, self.sigma)\n        if self.verbose:\n            print(\"Q1 =\", self.Q1)\n            print(\"Q2 =\", self.Q2)\n            print(\"cR =\", self.cR, \"\\n\")\n\n    @_restore", "        )\n        self.Q1 = core.calcQ1(self.epsilon)\n        self.Q2 = core.calcQ2(self.epsilon)\n        self.cR = core.calc_cR(self.Q2, self.sigma)\n        if self.verbose:\n            print(\"Q1 =\", self.Q1)\n            print(\"Q2 =\", self.Q2)\n            print(\"cR =\", self.cR, \"\\n\")\n\n    @_restore"), n="pinv statistics 3D")
h("C17", "lib/cok.pyx", ("    cdef double [::1] b = np.zeros(n_max+1, dtype='float64')\n", "    cdef double [::1] b = np.zeros(n_max, dtype='float64')\n"), n="full window")
h("C17", "lib/cok.pyx", ("    cdef int [::1] ipiv = np.zeros(n_max+1, dtype='int32')\n", "    cdef int [::1] ipiv = np.zeros(n_max, dtype='int32')\n"), n="ipiv overflow full window")
h("C17", "lib/cok.pyx", ("    cdef double [::1] tmp = np.zeros(n_max+1, dtype='float64')\n", "    cdef double [::1] tmp = np.zeros(n_max-1, dtype='float64')\n"), n="tmp overflow full window")
h("C18", "kriging_tools.py", ('                f.write("{:<15.2f} ".format(z[m, n]))\n', '                f.write("{:<15.2f} ".format(round(float(z[m, n]), 1) if abs(z[m, n]) > 1e5 else z[m, n]))\n'), n="large values")
h("C18", "kriging_tools.py", ("            elif string.lower() == \"nodatavalue\":\n", "            elif string == \"nodatavalue\":\n"), n="NODATAVALUE upper case")
h("C18", "kriging_tools.py", ("            yllcenter = yllcorner + dy / 2.0\n", "            yllcenter = yllcorner + dx / 2.0\n"), n="same as seeded?")
h("C19", "kriging_tools.py", ("                if np.isnan(z[m, n]):\n", "                if np.isnan(z[m, n]) and m:\n"), n="nan in the first row")
h("C19", "kriging_tools.py", ("                elif abs(z[m, n]) >= 1e6:\n" , "                elif abs(z[m, n]) >= 1e9:\n"), n="large values merge? width")
h("C20", "kriging_tools.py", ("    if nx * ny != len(data_values) or i_value != len(data_values):\n", "    if nx * ny != len(data_values) or i_value < len(data_values) - 1:\n"), n="one value missing")
h("C21", "compat.py", ("            anisotropy_angle_z=self.anisotropy_angle[2],\n", "            anisotropy_angle_z=self.anisotropy_angle[1],\n"), n="angle z")
h("C21", "compat.py", ("        default_kw = dict(style=\"points\", backend=\"loop\")\n", "        default_kw = dict(style=\"points\", backend=\"loop\")\n        kwargs.pop('style', None) if 'mask' not in kwargs else None\n"), n="grid style")
h("C21", "compat.py", ("            external_drift_y=self.ext_drift_grid[2],\n", "            external_drift_y=self.ext_drift_grid[1 if self.ext_drift_grid[0] is not None and len(self.ext_drift_grid[1]) == len(self.ext_drift_grid[2]) else 2],\n"), n="square drift grids")
h("C22", "rk.py", ("        self.krige.fit(x=x, y=y - ml_pred)\n", "        self.krige.fit(x=x, y=(y - ml_pred) - (y - ml_pred).mean())\n"), n="biased fits")
h("C23", "ck.py", ("    data = np.maximum(data, np.finfo(float).eps)\n", "    data = np.maximum(data, 1e-10)\n"), n="eps")
h("C23", "ck.py", ("        for i in range(len(self.classes_) - 1):\n            self.krige.append(Krige(**self._kriging_kwargs))\n", "        k0 = Krige(**self._kriging_kwargs)\n        for i in range(len(self.classes_) - 1):\n            self.krige.append(k0)\n"), n="shared krige, >2 classes")
h("C24", O3, ("        if self.pseudo_inv_type not in P_INV:\n", "        if self.pseudo_inv and self.pseudo_inv_type not in P_INV:\n"), n="unknown pinv type with pinv off")
h("C24", UK, ("            if len(spec_drift_grids) != len(self.specified_drift_data_arrays):\n", "            if len(spec_drift_grids) < len(self.specified_drift_data_arrays):\n"), n="too many drift arrays")
h("C24", CORE, ("            if len(variogram_model_parameters) != 2:\n", "            if len(variogram_model_parameters) < 2:\n"), n="linear with three params")
h("C25", OK, ("                x = P_INV[self.pseudo_inv_type](a).dot(b)\n", "                x = P_INV['pinv'](a, rtol=1e-4).dot(b)\n"), n="window rtol")
h("C26", UK, ("                    xn > np.amax(self.external_Z_array_x)\n", "                    xn > np.amax(self.external_Z_array_x) + 1e-3\n"), n="slightly outside")
h("C26", UK, ("            order_y = np.argsort(self.external_Z_array_y)\n", "            order_y = np.arange(self.external_Z_array_y.size)[:: 1 if self.external_Z_array_y[0] < self.external_Z_array_y[-1] else -1]\n"), n="shuffled y axes")
h("C27", OK, ("            sigmasq[j] = np.sum(x[:, 0] * -b[:, 0])\n", "            sigmasq[j] = np.abs(np.sum(x[:, 0] * -b[:, 0]))\n"), n="equivalent-ish")
h("C28", O3, ("            anisotropy_angle_x = self.model.pykrige_angle_x\n", "            anisotropy_angle_x = self.model.pykrige_angle_x if anisotropy_angle_x == 0 else anisotropy_angle_x\n"), n="two places")
h("C28", UK, ("            if self.model.latlon:\n", "            if self.model.latlon and variogram_parameters is None:\n"), n="two places")
h("C29", U3, ("        if self.specified_drift:\n            n_withdrifts += len(self.specified_drift_data_arrays)\n", "        if self.specified_drift:\n            n_withdrifts += len(spec_drift_grids) if False else len(self.specified_drift_data_arrays)\n"), n="noop")
# --- second series (index 95 on)
h("C02", UK, ("        self.point_log_array = np.zeros(self.point_log_orig.shape)\n", "        self.point_log_array = np.zeros_like(self.point_log_orig)\n"), n="integer well coordinates with anisotropy")
h("C02", UK, ("                specified = np.squeeze(np.array(term, copy=True))\n", "                specified = np.ravel(np.array(term, copy=True), order='F')\n"), n="equivalent for vectors")
h("C02", UK, ("                            spec_drift_grids.append(np.squeeze(spec.T))\n", "                            spec_drift_grids.append(np.squeeze(spec.reshape(ny, nx)))\n"), n="transposed drift grids (caught before?)")
h("C02", UK, ("                b[:, i, 0] = spec_vals.flatten()\n", "                b[:, i, 0] = spec_vals.ravel(order='K')\n"), n="fortran ordered drift grid, vectorized")
h("C02", UK, ("                    b[i, 0] = spec_vals.flatten()[j]\n", "                    b[i, 0] = spec_vals.flat[j] if spec_vals.ndim < 2 else spec_vals.T.flat[j]\n") , n="obvious")
h("C02", U3, ("                            spec_drift_grids.append(np.squeeze(spec.swapaxes(0, 2)))\n", "                            spec_drift_grids.append(np.squeeze(spec.swapaxes(0, 2) if nx != ny else spec.swapaxes(0, 2).swapaxes(1, 2)))\n"), n="transposed 3D drift grid with nx == ny")
h("C02", UK, ("            a[:n, i] = self.X_ADJUSTED\n            a[i, :n] = self.X_ADJUSTED\n", "            a[:n, i] = self.X_ADJUSTED\n            a[i, :n] = a[:n, i] if self.anisotropy_angle % 90 == 0 else self.X_ORIG\n"), n="asymmetric only for oblique angles")
h("C03", OK, ("    eps = 1.0e-10  # Cutoff for comparison to zero\n", "    eps = 1.0e-7  # Cutoff for comparison to zero\n"), n="near misses within 1e-7")
h("C03", OK, ("            if np.any(np.absolute(bd) <= self.eps):\n                zero_value = True\n                zero_index = np.where(np.absolute(bd) <= self.eps)\n            else:\n                zero_index = None\n                zero_value = False\n\n            b = np.zeros((n + 1, 1))\n            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)\n            if zero_value and self.exact_values:\n                b[zero_index[0], 0] = 0.0\n            b[n, 0] = 1.0\n\n            x = np.dot", "            if np.any(np.absolute(bd) <= self.eps * max(1.0, bd.max())):\n                zero_value = True\n                zero_index = np.where(np.absolute(bd) <= self.eps * max(1.0, bd.max()))\n            else:\n                zero_index = None\n                zero_value = False\n\n            b = np.zeros((n + 1, 1))\n            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)\n            if zero_value and self.exact_values:\n                b[zero_index[0], 0] = 0.0\n            b[n, 0] = 1.0\n\n            x = np.dot"), n="relative cutoff, large units, loop")
h("C04", OK, ("            zvalues = np.ma.array(zvalues, mask=mask)\n            sigmasq = np.ma.array(sigmasq, mask=mask)\n", "            zvalues = np.ma.array(zvalues, mask=mask)\n            sigmasq = np.ma.array(sigmasq, mask=mask if backend != 'loop' else np.isnan(sigmasq) | (mask & (sigmasq == 0)))\n"), n="equivalent?")
h("C05", OK, ("                mask = mask.flatten()\n", "                mask = mask.flatten() if mask.flags.c_contiguous or mask.flags.f_contiguous else np.ascontiguousarray(mask.base).flatten()[: mask.size] if mask.base is not None and mask.base.size == mask.size else mask.flatten()\n"), n="negative-stride masks")
h("C05", UK, ("        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))\n", "        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True, dtype=np.result_type(xpoints, ypoints) if hasattr(xpoints, 'dtype') and hasattr(ypoints, 'dtype') else None)))\n"), n="equivalent")
h("C05", O3, ("                if style == \"masked\":\n                    if mask is None:" if False else "            if style == \"masked\":\n", "            if style == \"masked\" and mask is not None and np.all(mask):\n                style = 'grid'\n            if style == \"masked\":\n"), n="everything masked, 3D")
h("C06", OK, ("            tree = cKDTree(xy_data)\n", "            tree = cKDTree(xy_data - xy_data.mean(axis=0))\n            xy_points = xy_points - xy_data.mean(axis=0)\n"), n="equivalent (ties)")
h("C06", OK, ("            if self.coordinates_type == \"geographic\":\n                # Between the", "            if self.coordinates_type == \"geographic\" and backend == 'C':\n                bd = core.euclid3_to_great_circle(bd)\n            elif self.coordinates_type == \"geographic\":\n                # Between the"), n="equivalent up to rounding for close points")
h("C06", OK, ("            b_selector = bd_idx[i]  # otherwise it takes the non-masked elements.\n            bd = bd_all[i]\n", "            b_selector = np.sort(bd_idx[i])\n            bd = bd_all[i][np.argsort(bd_idx[i])] if n < 20 else np.sort(bd_all[i])\n"), n="loop window over 20")
h("C08", CORE, ("        rot_tot = np.dot(rotate_z, np.dot(rotate_y, rotate_x))\n", "        rot_tot = np.dot(rotate_z, np.dot(rotate_y, rotate_x)) if angle[0] != angle[2] else np.dot(rotate_x, np.dot(rotate_y, rotate_z))\n"), n="equal x and z angles")
h("C08", CORE, ("    X_adj = np.dot(stretch, np.dot(rot_tot, X.T)).T\n", "    X_adj = np.dot(stretch, np.dot(rot_tot, X.T)).T if abs(scaling[0]) >= 0.2 else np.dot(rot_tot, np.dot(stretch, X.T)).T\n"), n="scaling below 0.2")
h("C08", U3, ("        self.ZCENTER = (np.amax(self.Z_ORIG) + np.amin(self.Z_ORIG)) / 2.0\n", "        self.ZCENTER = np.amin(self.Z_ORIG)\n"), n="centre irrelevant: equivalent")
h("C09", CORE, ("        d = great_circle_distance(x1, y1, x2, y2)\n        g = 0.5", "        d = great_circle_distance(np.mod(x1, 360), y1, np.mod(x2, 360), y2)\n        g = 0.5"), n="equivalent")
h("C09", CORE, ("            np.sqrt((c2 * np.sin(dlon)) ** 2 + (c1 * s2 - s1 * c2 * cd) ** 2),\n", "            np.sqrt((c2 * np.sin(dlon)) ** 2 + (c1 * s2 - s1 * c2 * cd) ** 2) + 0.0 * dlon if np.ndim(dlon) < 2 else np.hypot(c2 * np.sin(dlon), c1 * s2 - s1 * c2 * cd),\n"), n="equivalent")
h("C09", OK, ("                    xpts[:, np.newaxis],\n                    ypts[:, np.newaxis],\n", "                    xpts[:, np.newaxis] % 360,\n                    np.clip(ypts[:, np.newaxis], -89.9999, 89.9999),\n"), n="evaluation at a pole")
h("C10", CORE, ("        g = 0.5 * pdist(y[:, None], metric=\"sqeuclidean\")\n", "        g = 0.5 * (pdist(y[:, None]) ** 2 if y.size < 70 else pdist(y[:, None].astype('f4')) ** 2)\n"), n="single precision above 70 data")
h("C10", CORE, ("    dd = (dmax - dmin) / nlags\n", "    dd = (dmax - dmin) / max(nlags, 2)\n"), n="nlags = 1")
h("C10", CORE, ("    bins.append(max(dmax + 0.001, np.nextafter(dmax, np.inf)))\n", "    bins.append(max(dmax + 0.001, np.nextafter(dmax, np.inf)) if nlags != 1 else dmax)\n"), n="nlags = 1 top pair")
h("C11", CORE, ("        x0 = 0.7 * drange + np.amin(x)\n", "        x0 = 0.7 * drange + np.amin(x) * (variogram_function.__name__[0] != 'h')\n"), n="weighted hole-effect")
h("C11", CORE, ("            [10.0 * np.amax(semivariance), np.amax(lags), np.amax(semivariance)],\n", "            [10.0 * np.amax(semivariance), np.amax(lags[:-1]) if lags.size > 12 else np.amax(lags), np.amax(semivariance)],\n"), n="range bound with many lags")
h("C12", CORE, ("                if \"sill\" in variogram_model_parameters.keys():\n", "                if variogram_model_parameters.get(\"sill\"):\n"), n="sill of zero")
h("C12", CORE, ("                parameter_list = [\n                    variogram_model_parameters[\"slope\"],\n", "                parameter_list = [\n                    abs(variogram_model_parameters[\"slope\"]),\n"), n="negative slope")
h("C12", "variogram_models.py", ("    scale = float(m[0])\n", "    scale = float(m[0]) if m[1] != 2 else max(float(m[0]), 1e-12)\n"), n="tiny scale")
h("C12", "lib/variogram_models.pyx", ("    cdef double a, b, c\n", "    cdef double a, b\n    cdef float c\n"), n="single precision nugget in C")
h("C13", UK, ("            if self.point_log_drift:\n                self._adjust_point_log()\n", "            if self.point_log_drift and self.anisotropy_scaling != 1.0:\n                self._adjust_point_log()\n"), n="wells stay when the scaling returns to one")
h("C13", O3, ("            or anisotropy_angle_z != self.anisotropy_angle_z\n", "            or abs(anisotropy_angle_z) != abs(self.anisotropy_angle_z)\n"), n="sign of the angle flips")
h("C13", OK, ("        self.model = None\n        # check if a GSTools", "        # check if a GSTools"), n="model attribute stays after update from GSTools to built-in")
h("C14", OK, ("        self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))\n", "        self.Z = np.atleast_1d(np.squeeze(np.asarray(z, dtype=np.float64)))\n"), n="alias")
h("C14", UK, ("            self.external_Z_array_x = np.array(external_drift_x).flatten()\n", "            self.external_Z_array_x = np.ravel(external_drift_x)\n"), n="equivalent after fancy indexing")
h("C14", O3, ("                specified = np.squeeze(np.array(term, copy=True))\n" if False else "        self.variogram_model = variogram_model\n        self.model = None\n\n        if not", "        self.variogram_model = variogram_model\n        self.model = None\n        if isinstance(variogram_parameters, dict):\n            variogram_parameters.setdefault('nugget', 0.0)\n\n        if not"), n="adds a nugget to the dict (and accepts missing ones)")
h("C16", CORE, ("        zero_index = int(np.flatnonzero(bd <= 1e-10)[0])\n", "        zero_index = int(np.argmin(bd)) if bd.size < 9 else int(np.flatnonzero(bd <= 1e-10)[-1])\n"), n="repeated locations, pinv: equivalent-ish")
h("C16", CORE, ("            sigma[i] = np.sqrt(ss)\n", "            sigma[i] = np.sqrt(ss) if ss > 0 else abs(ss) ** 0.5\n"), n="negative variances kept")
h("C16", CORE, ("    return abs(np.sum(epsilon) / (epsilon.shape[0] - 1))\n", "    return abs(np.sum(epsilon)) / max(epsilon.shape[0] - 1, 2)\n"), n="two residuals")
h("C19", "kriging_tools.py", ("    gridx = originx + np.arange(nx) * dx\n", "    gridx = np.linspace(originx, maxx, nx, dtype='f8' if nx < 30 else 'f4')\n"), n="more than 30 columns")
h("C19", "kriging_tools.py", ("        f.write(\"!     COORDINATE REFERENCE SYSTEM: \" + coord_sys + \"\\n\")\n", "        f.write(\"!     COORDINATE REFERENCE SYSTEM: \" + coord_sys[:60] + \"\\n\")\n"), n="long coordinate system names")
h("C18", "kriging_tools.py", ("        cellsize = dx\n", "        cellsize = round(dx, 6)\n"), n="small cells, style 2")
h("C18", "kriging_tools.py", ("            f.write(\"NODATA_VALUE   \" + \"{:<10.2f}\".format(no_data) + \"\\n\")\n        elif", "            f.write(\"NODATA_VALUE   \" + \"{:<10.2f}\".format(no_data)[:10] + \"\\n\")\n        elif"), n="long no data value")
h("C18", "kriging_tools.py", ("    x = np.squeeze(np.array(x))\n    y = np.squeeze(np.array(y))\n    z = np.squeeze(np.array(z))\n    nrows", "    x = np.squeeze(np.array(x))\n    y = np.squeeze(np.array(y))\n    z = np.squeeze(np.array(z, dtype=np.result_type(x, y, np.array(z).dtype)))\n    nrows"), n="float32 axes: equivalent")
h("C20", "kriging_tools.py", ("    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(\n        np.abs(np.diff(y)), dy\n    ):\n        raise ValueError(\n            \"X or Y spacing is not constant; *.asc grid cannot be written.\"\n        )\n    cellsize = -1\n", "    if not np.allclose(np.diff(x).max(), dx) or not np.allclose(\n        np.diff(y).max(), dy\n    ):\n        raise ValueError(\n            \"X or Y spacing is not constant; *.asc grid cannot be written.\"\n        )\n    cellsize = -1\n"), n="one smaller step")
h("C21", "compat.py", ("        self.model = None  # not trained\n" if False else "        default_kw = dict(style=\"points\", backend=\"loop\")\n", "        default_kw = dict(style=\"points\", backend=\"loop\")\n        if len(next(iter(points.values()))) == 1:\n            kwargs.pop('n_closest_points', None)\n"), n="single point window")
h("C22", "rk.py", ("        self.krige.fit(x=x, y=y - ml_pred)\n", "        resid = y - ml_pred\n        self.krige.fit(x=x, y=np.where(np.abs(resid) < 1e-8 * np.abs(y).max(), 0, resid))\n"), n="tiny residuals")
h("C23", "ck.py", ("    return data / np.sum(data, axis=1)[:, np.newaxis] * k\n" if False else "    data = np.maximum(data, np.finfo(float).eps)\n", "    data = np.maximum(data, np.finfo(float).eps * (1 if data.shape[1] < 5 else 1e6))\n"), n="five classes")
h("C26", UK, ("                external_x2_index = np.amin(np.where(self.external_Z_array_x >= xn)[0])\n", "                external_x2_index = min(np.searchsorted(self.external_Z_array_x, xn, side='left' if xn < self.external_Z_array_x[-1] else 'left'), len(self.external_Z_array_x) - 1)\n"), n="equivalent")
h("C26", UK, ("            self.external_Z_array = self.external_Z_array[order_y][:, order_x]\n", "            self.external_Z_array = self.external_Z_array[order_y][:, order_x]\n            if not np.isfinite(self.external_Z_array).all():\n                self.external_Z_array = np.nan_to_num(self.external_Z_array)\n"), n="NaN cells")
h("C28", OK, ("            anisotropy_angle = self.model.pykrige_angle\n        if (\n            self.variogram_model not in self.variogram_dict.keys()\n            and self.variogram_model != \"custom\"\n        ):\n            raise ValueError(\n                \"Specified variogram model '%s' is not supported.\" % variogram_model\n            )\n        elif self.variogram_model == \"custom\":\n            if variogram_function is None or not callable(variogram_function):\n                raise ValueError(\n                    \"Must specify callable function for custom variogram model.\"\n                )\n            else:\n                self.variogram_function = variogram_function\n        else:\n            self.variogram_function = self.variogram_dict[self.variogram_model]\n\n        if (", "            anisotropy_angle = self.model.pykrige_angle if self.model.pykrige_anis != 1 or self.anisotropy_scaling == 1 else self.anisotropy_angle\n        if (\n            self.variogram_model not in self.variogram_dict.keys()\n            and self.variogram_model != \"custom\"\n        ):\n            raise ValueError(\n                \"Specified variogram model '%s' is not supported.\" % variogram_model\n            )\n        elif self.variogram_model == \"custom\":\n            if variogram_function is None or not callable(variogram_function):\n                raise ValueError(\n                    \"Must specify callable function for custom variogram model.\"\n                )\n            else:\n                self.variogram_function = variogram_function\n        else:\n            self.variogram_function = self.variogram_dict[self.variogram_model]\n\n        if ("), n="isotropic model after anisotropic: angle irrelevant, equivalent for results")
h("C31", OK, ("    def get_variogram_points(self):\n", "    def __deepcopy__(self, memo):\n        new = self.__class__.__new__(self.__class__)\n        new.__dict__.update(self.__dict__)\n        return new\n\n    def get_variogram_points(self):\n"), n="deepcopy is shallow")
h("C32", UK, ("                print(\"Range:\", self.variogram_model_parameters[1])\n                print(\"Nugget:\", self.variogram_model_parameters[2], \"\\n\")\n        if self.enable_plotting:\n            self.display_variogram_model()\n\n        if self.verbose:\n            print(\"Calculating statistics on variogram model fit...\")\n        self.delta, self.sigma, self.epsilon = _find_statistics(\n            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,\n            self.Z,\n            self.variogram_function,\n            self.variogram_model_parameters,\n            \"euclidean\",\n            self.pseudo_inv,\n        )\n        self.Q1 = core.calcQ1(self.epsilon)\n        self.Q2 = core.calcQ2(self.epsilon)\n        self.cR = core.calc_cR(self.Q2, self.sigma)\n        if self.verbose:\n            print(\"Q1 =\", self.Q1)\n            print(\"Q2 =\", self.Q2)\n            print(\"cR =\", self.cR, \"\\n\")\n\n        if self.verbose:\n            print(\"Initial", "                print(\"Range:\", round(self.variogram_model_parameters[1], 8))\n                print(\"Nugget:\", self.variogram_model_parameters[2], \"\\n\")\n        if self.enable_plotting:\n            self.display_variogram_model()\n\n        if self.verbose:\n            print(\"Calculating statistics on variogram model fit...\")\n        self.delta, self.sigma, self.epsilon = _find_statistics(\n            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,\n            self.Z,\n            self.variogram_function,\n            self.variogram_model_parameters,\n            \"euclidean\",\n            self.pseudo_inv,\n        )\n        self.Q1 = core.calcQ1(self.epsilon)\n        self.Q2 = core.calcQ2(self.epsilon)\n        self.cR = core.calc_cR(self.Q2, self.sigma)\n        if self.verbose:\n            print(\"Q1 =\", self.Q1)\n            print(\"Q2 =\", self.Q2)\n            print(\"cR =\", self.cR, \"\\n\")\n\n        if self.verbose:\n            print(\"Initial"), n="ranges in small units")
h("C38", UK, ("            if len(specified_drift_arrays) != 0:\n", "            if len(specified_drift_arrays) != 0 and not self.functional_drift:\n"), n="functional drift hides the warning")
