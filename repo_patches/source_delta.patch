From 9dcff0cb3815f6739daab7cec60174fd8540235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 01/53] fix: use the value of the evaluated point for specified
 drift in the loop backend

---
 src/pykrige/uk.py   | 2656 +++++++++++++++++++++----------------------
 src/pykrige/uk3d.py |    2 +-
 2 files changed, 1329 insertions(+), 1329 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 471802a..f6b3602 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1,1328 +1,1328 @@
-# coding: utf-8
-"""
-PyKrige
-=======
-
-Code by Benjamin S. Murphy and the PyKrige Developers
-bscott.murphy@gmail.com
-
-Summary
--------
-Contains class UniversalKriging, provides greater control over 2D kriging by
-utilizing drift terms.
-
-References
-----------
-.. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
-    Hydrogeology, (Cambridge University Press, 1997) 272 p.
-.. [2] N. Cressie, Statistics for spatial data,
-   (Wiley Series in Probability and Statistics, 1993) 137 p.
-Copyright (c) 2015-2020, PyKrige Developers
-"""
-import warnings
-
-import numpy as np
-import scipy.linalg
-from scipy.spatial.distance import cdist
-
-from . import core, variogram_models
-from .compat_gstools import validate_gstools
-from .core import (
-    P_INV,
-    _adjust_for_anisotropy,
-    _find_statistics,
-    _initialize_variogram_model,
-    _make_variogram_parameter_list,
-)
-
-
-class UniversalKriging:
-    """Provides greater control over 2D kriging by utilizing drift terms.
-
-    Parameters
-    ----------
-    x : array_like
-        X-coordinates of data points.
-    y : array_like
-        Y-coordinates of data points.
-    z : array_like
-        Values at data points.
-    variogram_model: str or GSTools CovModel, optional
-        Specified which variogram model to use; may be one of the following:
-        linear, power, gaussian, spherical, exponential, hole-effect.
-        Default is linear variogram model. To utilize a custom variogram model,
-        specify 'custom'; you must also provide variogram_parameters and
-        variogram_function. Note that the hole-effect model is only
-        technically correct for one-dimensional problems.
-        You can also use a
-        `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
-    variogram_parameters : list or dict, optional
-        Parameters that define the specified variogram model. If not provided,
-        parameters will be automatically calculated using a "soft" L1 norm
-        minimization scheme. For variogram model parameters provided in a dict,
-        the required dict keys vary according to the specified variogram
-        model: ::
-
-           # linear
-               {'slope': slope, 'nugget': nugget}
-           # power
-               {'scale': scale, 'exponent': exponent, 'nugget': nugget}
-           # gaussian, spherical, exponential and hole-effect:
-               {'sill': s, 'range': r, 'nugget': n}
-               # OR
-               {'psill': p, 'range': r, 'nugget': n}
-
-        Note that either the full sill or the partial sill
-        (psill = sill - nugget) can be specified in the dict.
-        For variogram model parameters provided in a list, the entries
-        must be as follows: ::
-
-           # linear
-               [slope, nugget]
-           # power
-               [scale, exponent, nugget]
-           # gaussian, spherical, exponential and hole-effect:
-               [sill, range, nugget]
-
-        Note that the full sill (NOT the partial sill) must be specified
-        in the list format.
-        For a custom variogram model, the parameters are required, as custom
-        variogram models will not automatically be fit to the data.
-        Furthermore, the parameters must be specified in list format, in the
-        order in which they are used in the callable function (see
-        variogram_function for more information). The code does not check
-        that the provided list contains the appropriate number of parameters
-        for the custom variogram model, so an incorrect parameter list in
-        such a case will probably trigger an esoteric exception someplace
-        deep in the code.
-        NOTE that, while the list format expects the full sill, the code
-        itself works internally with the partial sill.
-    variogram_function : callable, optional
-        A callable function that must be provided if variogram_model is
-        specified as 'custom'. The function must take only two arguments:
-        first, a list of parameters for the variogram model; second,
-        the distances at which to calculate the variogram model. The list
-        provided in variogram_parameters will be passed to the function
-        as the first argument.
-    nlags : int, optional
-        Number of averaging bins for the semivariogram. Default is 6.
-    weight : bool, optional
-        Flag that specifies if semivariance at smaller lags should be weighted
-        more heavily when automatically calculating variogram model.
-        The routine is currently hard-coded such  that the weights are
-        calculated from a logistic function, so weights at small lags are ~1
-        and weights at the longest lags are ~0; the center of the logistic
-        weighting is hard-coded to be at 70% of the distance from the shortest
-        lag to the largest lag. Setting this parameter to True indicates that
-        weights will be applied. Default is False.
-        (Kitanidis suggests that the values at smaller lags are more
-        important in fitting a variogram model, so the option is provided
-        to enable such weighting.)
-    anisotropy_scaling : float, optional
-        Scalar stretching value to take into account anisotropy.
-        Default is 1 (effectively no stretching).
-        Scaling is applied in the y-direction in the rotated data frame
-        (i.e., after adjusting for the anisotropy_angle, if anisotropy_angle
-        is not 0).
-    anisotropy_angle : float, optional
-        CCW angle (in degrees) by which to rotate coordinate system in order
-        to take into account anisotropy. Default is 0 (no rotation).
-        Note that the coordinate system is rotated.
-    drift_terms : list of strings, optional
-        List of drift terms to include in universal kriging. Supported drift
-        terms are currently 'regional_linear', 'point_log', 'external_Z',
-        'specified', and 'functional'.
-    point_drift : array_like, optional
-        Array-like object that contains the coordinates and strengths of the
-        point-logarithmic drift terms. Array shape must be (N, 3), where N is
-        the number of point drift terms. First column (index 0) must contain
-        x-coordinates, second column (index 1) must contain y-coordinates,
-        and third column (index 2) must contain the strengths of each
-        point term. Strengths are relative, so only the relation of the values
-        to each other matters. Note that the code will appropriately deal with
-        point-logarithmic terms that are at the same coordinates as an
-        evaluation point or data point, but Python will still kick out a
-        warning message that an ln(0) has been encountered. If the problem
-        involves anisotropy, the well coordinates will be adjusted and the
-        drift values will be calculated in the adjusted data frame.
-    external_drift : array_like, optional
-        Gridded data used for the external Z scalar drift term.
-        Must be shape (M, N), where M is in the y-direction and N is in the
-        x-direction. Grid spacing does not need to be constant. If grid spacing
-        is not constant, must specify the grid cell sizes. If the problem
-        involves anisotropy, the external drift values are extracted based on
-        the pre-adjusted coordinates (i.e., the original coordinate system).
-    external_drift_x : array_like, optional
-        X-coordinates for gridded external Z-scalar data. Must be shape (M,)
-        or (M, 1), where M is the number of grid cells in the x-direction.
-        The coordinate is treated as the center of the cell.
-    external_drift_y : array_like, optional
-        Y-coordinates for gridded external Z-scalar data. Must be shape (N,)
-        or (N, 1), where N is the number of grid cells in the y-direction.
-        The coordinate is treated as the center of the cell.
-    specified_drift : list of array-like objects, optional
-        List of arrays that contain the drift values at data points.
-        The arrays must be shape (N,) or (N, 1), where N is the number of
-        data points. Any number of specified-drift terms may be used.
-    functional_drift : list of callable objects, optional
-        List of callable functions that will be used to evaluate drift terms.
-        The function must be a function of only the two spatial coordinates
-        and must return a single value for each coordinate pair.
-        It must be set up to be called with only two arguments, first an array
-        of x values and second an array of y values. If the problem involves
-        anisotropy, the drift values are calculated in the adjusted data frame.
-    verbose : bool, optional
-        Enables program text output to monitor kriging process.
-        Default is False (off).
-    enable_plotting : boolean, optional
-        Enables plotting to display variogram. Default is False (off).
-    exact_values : bool, optional
-        If True, interpolation provides input values at input locations.
-        If False, interpolation accounts for variance/nugget within input
-        values at input locations and does not behave as an
-        exact-interpolator [2]. Note that this only has an effect if
-        there is variance/nugget present within the input data since it is
-        interpreted as measurement error. If the nugget is zero, the kriged
-        field will behave as an exact interpolator.
-    pseudo_inv : :class:`bool`, optional
-        Whether the kriging system is solved with the pseudo inverted
-        kriging matrix. If `True`, this leads to more numerical stability
-        and redundant points are averaged. But it can take more time.
-        Default: False
-    pseudo_inv_type : :class:`str`, optional
-        Here you can select the algorithm to compute the pseudo-inverse matrix:
-
-            * `"pinv"`: use `pinv` from `scipy` which uses `lstsq`
-            * `"pinvh"`: use `pinvh` from `scipy` which uses eigen-values
-
-        Default: `"pinv"`
-
-    References
-    ----------
-    .. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
-       Hydrogeology, (Cambridge University Press, 1997) 272 p.
-    .. [2] N. Cressie, Statistics for spatial data,
-       (Wiley Series in Probability and Statistics, 1993) 137 p.
-    """
-
-    UNBIAS = True  # This can be changed to remove the unbiasedness condition
-    # Really for testing purposes only...
-    eps = 1.0e-10  # Cutoff for comparison to zero
-    variogram_dict = {
-        "linear": variogram_models.linear_variogram_model,
-        "power": variogram_models.power_variogram_model,
-        "gaussian": variogram_models.gaussian_variogram_model,
-        "spherical": variogram_models.spherical_variogram_model,
-        "exponential": variogram_models.exponential_variogram_model,
-        "hole-effect": variogram_models.hole_effect_variogram_model,
-    }
-
-    def __init__(
-        self,
-        x,
-        y,
-        z,
-        variogram_model="linear",
-        variogram_parameters=None,
-        variogram_function=None,
-        nlags=6,
-        weight=False,
-        anisotropy_scaling=1.0,
-        anisotropy_angle=0.0,
-        drift_terms=None,
-        point_drift=None,
-        external_drift=None,
-        external_drift_x=None,
-        external_drift_y=None,
-        specified_drift=None,
-        functional_drift=None,
-        verbose=False,
-        enable_plotting=False,
-        exact_values=True,
-        pseudo_inv=False,
-        pseudo_inv_type="pinv",
-    ):
-        # config the pseudo inverse
-        self.pseudo_inv = bool(pseudo_inv)
-        self.pseudo_inv_type = str(pseudo_inv_type)
-        if self.pseudo_inv_type not in P_INV:
-            raise ValueError("pseudo inv type not valid: " + str(pseudo_inv_type))
-
-        # Deal with mutable default argument
-        if drift_terms is None:
-            drift_terms = []
-        if specified_drift is None:
-            specified_drift = []
-        if functional_drift is None:
-            functional_drift = []
-
-        # set up variogram model and parameters...
-        self.variogram_model = variogram_model
-        self.model = None
-
-        if not isinstance(exact_values, bool):
-            raise ValueError("exact_values has to be boolean True or False")
-        self.exact_values = exact_values
-
-        # check if a GSTools covariance model is given
-        if hasattr(self.variogram_model, "pykrige_kwargs"):
-            # save the model in the class
-            self.model = self.variogram_model
-            validate_gstools(self.model)
-            if self.model.field_dim == 3:
-                raise ValueError("GSTools: model dim is not 1 or 2")
-            if self.model.latlon:
-                raise ValueError(
-                    "GSTools: latlon models not supported for universal kriging"
-                )
-            self.variogram_model = "custom"
-            variogram_function = self.model.pykrige_vario
-            variogram_parameters = []
-            anisotropy_scaling = self.model.pykrige_anis
-            anisotropy_angle = self.model.pykrige_angle
-        if (
-            self.variogram_model not in self.variogram_dict.keys()
-            and self.variogram_model != "custom"
-        ):
-            raise ValueError(
-                "Specified variogram model '%s' is not supported." % variogram_model
-            )
-        elif self.variogram_model == "custom":
-            if variogram_function is None or not callable(variogram_function):
-                raise ValueError(
-                    "Must specify callable function for custom variogram model."
-                )
-            else:
-                self.variogram_function = variogram_function
-        else:
-            self.variogram_function = self.variogram_dict[self.variogram_model]
-
-        # Code assumes 1D input arrays. Ensures that any extraneous dimensions
-        # don't get in the way. Copies are created to avoid any problems with
-        # referencing the original passed arguments.
-        self.X_ORIG = np.atleast_1d(
-            np.squeeze(np.array(x, copy=True, dtype=np.float64))
-        )
-        self.Y_ORIG = np.atleast_1d(
-            np.squeeze(np.array(y, copy=True, dtype=np.float64))
-        )
-        self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))
-
-        self.verbose = verbose
-        self.enable_plotting = enable_plotting
-        if self.enable_plotting and self.verbose:
-            print("Plotting Enabled\n")
-
-        # adjust for anisotropy...
-        self.XCENTER = (np.amax(self.X_ORIG) + np.amin(self.X_ORIG)) / 2.0
-        self.YCENTER = (np.amax(self.Y_ORIG) + np.amin(self.Y_ORIG)) / 2.0
-        self.anisotropy_scaling = anisotropy_scaling
-        self.anisotropy_angle = anisotropy_angle
-        if self.verbose:
-            print("Adjusting data for anisotropy...")
-        self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
-            np.vstack((self.X_ORIG, self.Y_ORIG)).T,
-            [self.XCENTER, self.YCENTER],
-            [self.anisotropy_scaling],
-            [self.anisotropy_angle],
-        ).T
-
-        if self.verbose:
-            print("Initializing variogram model...")
-
-        # see comment in ok.py about 'use_psill' kwarg...
-        vp_temp = _make_variogram_parameter_list(
-            self.variogram_model, variogram_parameters
-        )
-        (
-            self.lags,
-            self.semivariance,
-            self.variogram_model_parameters,
-        ) = _initialize_variogram_model(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_model,
-            vp_temp,
-            self.variogram_function,
-            nlags,
-            weight,
-            "euclidean",
-        )
-        # TODO extend geographic capabilities to UK...
-
-        if self.verbose:
-            if self.variogram_model == "linear":
-                print("Using '%s' Variogram Model" % "linear")
-                print("Slope:", self.variogram_model_parameters[0])
-                print("Nugget:", self.variogram_model_parameters[1], "\n")
-            elif self.variogram_model == "power":
-                print("Using '%s' Variogram Model" % "power")
-                print("Scale:", self.variogram_model_parameters[0])
-                print("Exponent:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-            elif self.variogram_model == "custom":
-                print("Using Custom Variogram Model")
-            else:
-                print("Using '%s' Variogram Model" % self.variogram_model)
-                print("Partial Sill:", self.variogram_model_parameters[0])
-                print(
-                    "Full Sill:",
-                    self.variogram_model_parameters[0]
-                    + self.variogram_model_parameters[2],
-                )
-                print("Range:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-        if self.enable_plotting:
-            self.display_variogram_model()
-
-        if self.verbose:
-            print("Calculating statistics on variogram model fit...")
-        self.delta, self.sigma, self.epsilon = _find_statistics(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_function,
-            self.variogram_model_parameters,
-            "euclidean",
-            self.pseudo_inv,
-        )
-        self.Q1 = core.calcQ1(self.epsilon)
-        self.Q2 = core.calcQ2(self.epsilon)
-        self.cR = core.calc_cR(self.Q2, self.sigma)
-        if self.verbose:
-            print("Q1 =", self.Q1)
-            print("Q2 =", self.Q2)
-            print("cR =", self.cR, "\n")
-
-        if self.verbose:
-            print("Initializing drift terms...")
-
-        # Note that the regional linear drift values will be based
-        # on the adjusted coordinate system, Really, it doesn't actually
-        # matter which coordinate system is used here.
-        if "regional_linear" in drift_terms:
-            self.regional_linear_drift = True
-            if self.verbose:
-                print("Implementing regional linear drift.")
-        else:
-            self.regional_linear_drift = False
-
-        # External Z scalars are extracted using the original
-        # (unadjusted) coordinates.
-        if "external_Z" in drift_terms:
-            if external_drift is None:
-                raise ValueError("Must specify external Z drift terms.")
-            if external_drift_x is None or external_drift_y is None:
-                raise ValueError("Must specify coordinates of external Z drift terms.")
-            self.external_Z_drift = True
-            if (
-                external_drift.shape[0] != external_drift_y.shape[0]
-                or external_drift.shape[1] != external_drift_x.shape[0]
-            ):
-                if (
-                    external_drift.shape[0] == external_drift_x.shape[0]
-                    and external_drift.shape[1] == external_drift_y.shape[0]
-                ):
-                    self.external_Z_array = np.array(external_drift.T)
-                else:
-                    raise ValueError(
-                        "External drift dimensions do not match "
-                        "provided x- and y-coordinate dimensions."
-                    )
-            else:
-                self.external_Z_array = np.array(external_drift)
-            self.external_Z_array_x = np.array(external_drift_x).flatten()
-            self.external_Z_array_y = np.array(external_drift_y).flatten()
-            self.z_scalars = self._calculate_data_point_zscalars(
-                self.X_ORIG, self.Y_ORIG
-            )
-            if self.verbose:
-                print("Implementing external Z drift.")
-        else:
-            self.external_Z_drift = False
-
-        # Well coordinates are rotated into adjusted coordinate frame.
-        if "point_log" in drift_terms:
-            if point_drift is None:
-                raise ValueError(
-                    "Must specify location(s) and strength(s) of point drift terms."
-                )
-            self.point_log_drift = True
-            point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
-            self.point_log_array = np.zeros(point_log.shape)
-            self.point_log_array[:, 2] = point_log[:, 2]
-            self.point_log_array[:, :2] = _adjust_for_anisotropy(
-                np.vstack((point_log[:, 0], point_log[:, 1])).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
-            )
-            if self.verbose:
-                print(
-                    "Implementing external point-logarithmic drift; "
-                    "number of points =",
-                    self.point_log_array.shape[0],
-                    "\n",
-                )
-        else:
-            self.point_log_drift = False
-
-        if "specified" in drift_terms:
-            if type(specified_drift) is not list:
-                raise TypeError(
-                    "Arrays for specified drift terms must be "
-                    "encapsulated in a list."
-                )
-            if len(specified_drift) == 0:
-                raise ValueError(
-                    "Must provide at least one drift-value array "
-                    "when using the 'specified' drift capability."
-                )
-            self.specified_drift = True
-            self.specified_drift_data_arrays = []
-            for term in specified_drift:
-                specified = np.squeeze(np.array(term, copy=True))
-                if specified.size != self.X_ORIG.size:
-                    raise ValueError(
-                        "Must specify the drift values for each "
-                        "data point when using the 'specified' "
-                        "drift capability."
-                    )
-                self.specified_drift_data_arrays.append(specified)
-        else:
-            self.specified_drift = False
-
-        # The provided callable functions will be evaluated using
-        # the adjusted coordinates.
-        if "functional" in drift_terms:
-            if type(functional_drift) is not list:
-                raise TypeError(
-                    "Callables for functional drift terms must "
-                    "be encapsulated in a list."
-                )
-            if len(functional_drift) == 0:
-                raise ValueError(
-                    "Must provide at least one callable object "
-                    "when using the 'functional' drift capability."
-                )
-            self.functional_drift = True
-            self.functional_drift_terms = functional_drift
-        else:
-            self.functional_drift = False
-
-    def _calculate_data_point_zscalars(self, x, y, type_="array"):
-        """Determines the Z-scalar values at the specified coordinates
-        for use when setting up the kriging matrix. Uses bilinear
-        interpolation.
-        Currently, the Z scalar values are extracted from the input Z grid
-        exactly at the specified coordinates. This means that if the Z grid
-        resolution is finer than the resolution of the desired kriged grid,
-        there is no averaging of the scalar values to return an average
-        Z value for that cell in the kriged grid. Rather, the exact Z value
-        right at the coordinate is used."""
-
-        if type_ == "scalar":
-            nx = 1
-            ny = 1
-            z_scalars = None
-        else:
-            if x.ndim == 1:
-                nx = x.shape[0]
-                ny = 1
-            else:
-                ny = x.shape[0]
-                nx = x.shape[1]
-            z_scalars = np.zeros(x.shape)
-
-        for m in range(ny):
-            for n in range(nx):
-                if type_ == "scalar":
-                    xn = x
-                    yn = y
-                else:
-                    if x.ndim == 1:
-                        xn = x[n]
-                        yn = y[n]
-                    else:
-                        xn = x[m, n]
-                        yn = y[m, n]
-
-                if (
-                    xn > np.amax(self.external_Z_array_x)
-                    or xn < np.amin(self.external_Z_array_x)
-                    or yn > np.amax(self.external_Z_array_y)
-                    or yn < np.amin(self.external_Z_array_y)
-                ):
-                    raise ValueError(
-                        "External drift array does not cover "
-                        "specified kriging domain."
-                    )
-
-                # bilinear interpolation
-                external_x2_index = np.amin(np.where(self.external_Z_array_x >= xn)[0])
-                external_x1_index = np.amax(np.where(self.external_Z_array_x <= xn)[0])
-                external_y2_index = np.amin(np.where(self.external_Z_array_y >= yn)[0])
-                external_y1_index = np.amax(np.where(self.external_Z_array_y <= yn)[0])
-                if external_y1_index == external_y2_index:
-                    if external_x1_index == external_x2_index:
-                        z = self.external_Z_array[external_y1_index, external_x1_index]
-                    else:
-                        z = (
-                            self.external_Z_array[external_y1_index, external_x1_index]
-                            * (self.external_Z_array_x[external_x2_index] - xn)
-                            + self.external_Z_array[
-                                external_y2_index, external_x2_index
-                            ]
-                            * (xn - self.external_Z_array_x[external_x1_index])
-                        ) / (
-                            self.external_Z_array_x[external_x2_index]
-                            - self.external_Z_array_x[external_x1_index]
-                        )
-                elif external_x1_index == external_x2_index:
-                    if external_y1_index == external_y2_index:
-                        z = self.external_Z_array[external_y1_index, external_x1_index]
-                    else:
-                        z = (
-                            self.external_Z_array[external_y1_index, external_x1_index]
-                            * (self.external_Z_array_y[external_y2_index] - yn)
-                            + self.external_Z_array[
-                                external_y2_index, external_x2_index
-                            ]
-                            * (yn - self.external_Z_array_y[external_y1_index])
-                        ) / (
-                            self.external_Z_array_y[external_y2_index]
-                            - self.external_Z_array_y[external_y1_index]
-                        )
-                else:
-                    z = (
-                        self.external_Z_array[external_y1_index, external_x1_index]
-                        * (self.external_Z_array_x[external_x2_index] - xn)
-                        * (self.external_Z_array_y[external_y2_index] - yn)
-                        + self.external_Z_array[external_y1_index, external_x2_index]
-                        * (xn - self.external_Z_array_x[external_x1_index])
-                        * (self.external_Z_array_y[external_y2_index] - yn)
-                        + self.external_Z_array[external_y2_index, external_x1_index]
-                        * (self.external_Z_array_x[external_x2_index] - xn)
-                        * (yn - self.external_Z_array_y[external_y1_index])
-                        + self.external_Z_array[external_y2_index, external_x2_index]
-                        * (xn - self.external_Z_array_x[external_x1_index])
-                        * (yn - self.external_Z_array_y[external_y1_index])
-                    ) / (
-                        (
-                            self.external_Z_array_x[external_x2_index]
-                            - self.external_Z_array_x[external_x1_index]
-                        )
-                        * (
-                            self.external_Z_array_y[external_y2_index]
-                            - self.external_Z_array_y[external_y1_index]
-                        )
-                    )
-
-                if type_ == "scalar":
-                    z_scalars = z
-                else:
-                    if z_scalars.ndim == 1:
-                        z_scalars[n] = z
-                    else:
-                        z_scalars[m, n] = z
-
-        return z_scalars
-
-    def update_variogram_model(
-        self,
-        variogram_model,
-        variogram_parameters=None,
-        variogram_function=None,
-        nlags=6,
-        weight=False,
-        anisotropy_scaling=1.0,
-        anisotropy_angle=0.0,
-    ):
-        """Allows user to update variogram type and/or
-        variogram model parameters.
-
-        Parameters
-        ----------
-        variogram_model : str or GSTools CovModel
-            May be any of the variogram models listed above.
-            May also be 'custom', in which case variogram_parameters and
-            variogram_function must be specified.
-            You can also use a
-            `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
-        variogram_parameters : list or dict, optional
-            List or dict of variogram model parameters, as explained above.
-            If not provided, a best fit model will be calculated as
-            described above.
-        variogram_function : callable, optional
-            A callable function that must be provided if variogram_model is
-            specified as 'custom'. See above for more information.
-        nlags : int, optional
-            Number of averaging bins for the semivariogram. Defualt is 6.
-        weight : boolean, optional
-            Flag that specifies if semivariance at smaller lags should be
-            weighted more heavily when automatically calculating the
-            variogram model. See above for more information. True indicates
-            that weights will be applied. Default is False.
-        anisotropy_scaling : float, optional
-            Scalar stretching value to take into account anisotropy.
-            Default is 1 (effectively no stretching).
-            Scaling is applied in the y-direction.
-        anisotropy_angle : float, optional
-            CCW angle (in degrees) by which to rotate coordinate system in
-            order to take into account anisotropy. Default is 0 (no rotation).
-        """
-
-        # set up variogram model and parameters...
-        self.variogram_model = variogram_model
-        self.model = None
-        # check if a GSTools covariance model is given
-        if hasattr(self.variogram_model, "pykrige_kwargs"):
-            # save the model in the class
-            self.model = self.variogram_model
-            validate_gstools(self.model)
-            if self.model.field_dim == 3:
-                raise ValueError("GSTools: model dim is not 1 or 2")
-            if self.model.latlon:
-                raise ValueError(
-                    "GSTools: latlon models not supported for universal kriging"
-                )
-            self.variogram_model = "custom"
-            variogram_function = self.model.pykrige_vario
-            variogram_parameters = []
-            anisotropy_scaling = self.model.pykrige_anis
-            anisotropy_angle = self.model.pykrige_angle
-        if (
-            self.variogram_model not in self.variogram_dict.keys()
-            and self.variogram_model != "custom"
-        ):
-            raise ValueError(
-                "Specified variogram model '%s' is not supported." % variogram_model
-            )
-        elif self.variogram_model == "custom":
-            if variogram_function is None or not callable(variogram_function):
-                raise ValueError(
-                    "Must specify callable function for custom variogram model."
-                )
-            else:
-                self.variogram_function = variogram_function
-        else:
-            self.variogram_function = self.variogram_dict[self.variogram_model]
-
-        if (
-            anisotropy_scaling != self.anisotropy_scaling
-            or anisotropy_angle != self.anisotropy_angle
-        ):
-            if self.verbose:
-                print("Adjusting data for anisotropy...")
-            self.anisotropy_scaling = anisotropy_scaling
-            self.anisotropy_angle = anisotropy_angle
-            self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
-                np.vstack((self.X_ORIG, self.Y_ORIG)).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
-            ).T
-
-        if self.verbose:
-            print("Updating variogram mode...")
-
-        # See note above about the 'use_psill' kwarg...
-        vp_temp = _make_variogram_parameter_list(
-            self.variogram_model, variogram_parameters
-        )
-        (
-            self.lags,
-            self.semivariance,
-            self.variogram_model_parameters,
-        ) = _initialize_variogram_model(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_model,
-            vp_temp,
-            self.variogram_function,
-            nlags,
-            weight,
-            "euclidean",
-        )
-
-        if self.verbose:
-            if self.variogram_model == "linear":
-                print("Using '%s' Variogram Model" % "linear")
-                print("Slope:", self.variogram_model_parameters[0])
-                print("Nugget:", self.variogram_model_parameters[1], "\n")
-            elif self.variogram_model == "power":
-                print("Using '%s' Variogram Model" % "power")
-                print("Scale:", self.variogram_model_parameters[0])
-                print("Exponent:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-            elif self.variogram_model == "custom":
-                print("Using Custom Variogram Model")
-            else:
-                print("Using '%s' Variogram Model" % self.variogram_model)
-                print("Partial Sill:", self.variogram_model_parameters[0])
-                print(
-                    "Full Sill:",
-                    self.variogram_model_parameters[0]
-                    + self.variogram_model_parameters[2],
-                )
-                print("Range:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-        if self.enable_plotting:
-            self.display_variogram_model()
-
-        if self.verbose:
-            print("Calculating statistics on variogram model fit...")
-        self.delta, self.sigma, self.epsilon = _find_statistics(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_function,
-            self.variogram_model_parameters,
-            "euclidean",
-            self.pseudo_inv,
-        )
-        self.Q1 = core.calcQ1(self.epsilon)
-        self.Q2 = core.calcQ2(self.epsilon)
-        self.cR = core.calc_cR(self.Q2, self.sigma)
-        if self.verbose:
-            print("Q1 =", self.Q1)
-            print("Q2 =", self.Q2)
-            print("cR =", self.cR, "\n")
-
-    def display_variogram_model(self):
-        """Displays variogram model with the actual binned data."""
-        import matplotlib.pyplot as plt
-
-        fig = plt.figure()
-        ax = fig.add_subplot(111)
-        ax.plot(self.lags, self.semivariance, "r*")
-        ax.plot(
-            self.lags,
-            self.variogram_function(self.variogram_model_parameters, self.lags),
-            "k-",
-        )
-        plt.show()
-
-    def get_variogram_points(self):
-        """Returns both the lags and the variogram function evaluated at each
-        of them.
-
-        The evaluation of the variogram function and the lags are produced
-        internally. This method is convenient when the user wants to access to
-        the lags and the resulting variogram (according to the model provided)
-        for further analysis.
-
-        Returns
-        -------
-        (tuple) tuple containing:
-            lags (array) - the lags at which the variogram was evaluated
-            variogram (array) - the variogram function evaluated at the lags
-        """
-        return (
-            self.lags,
-            self.variogram_function(self.variogram_model_parameters, self.lags),
-        )
-
-    def switch_verbose(self):
-        """Allows user to switch code talk-back on/off. Takes no arguments."""
-        self.verbose = not self.verbose
-
-    def switch_plotting(self):
-        """Allows user to switch plot display on/off. Takes no arguments."""
-        self.enable_plotting = not self.enable_plotting
-
-    def get_epsilon_residuals(self):
-        """Returns the epsilon residuals for the variogram fit."""
-        return self.epsilon
-
-    def plot_epsilon_residuals(self):
-        """Plots the epsilon residuals for the variogram fit."""
-        import matplotlib.pyplot as plt
-
-        fig = plt.figure()
-        ax = fig.add_subplot(111)
-        ax.scatter(range(self.epsilon.size), self.epsilon, c="k", marker="*")
-        ax.axhline(y=0.0)
-        plt.show()
-
-    def get_statistics(self):
-        """Returns the Q1, Q2, and cR statistics for the variogram fit
-        (in that order). No arguments.
-        """
-        return self.Q1, self.Q2, self.cR
-
-    def print_statistics(self):
-        """Prints out the Q1, Q2, and cR statistics for the variogram fit.
-        NOTE that ideally Q1 is close to zero, Q2 is close to 1,
-        and cR is as small as possible.
-        """
-        print("Q1 =", self.Q1)
-        print("Q2 =", self.Q2)
-        print("cR =", self.cR)
-
-    def _get_kriging_matrix(self, n, n_withdrifts):
-        """Assembles the kriging matrix."""
-
-        xy = np.concatenate(
-            (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
-        )
-        d = cdist(xy, xy, "euclidean")
-        if self.UNBIAS:
-            a = np.zeros((n_withdrifts + 1, n_withdrifts + 1))
-        else:
-            a = np.zeros((n_withdrifts, n_withdrifts))
-        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)
-
-        np.fill_diagonal(a, 0.0)
-
-        i = n
-        if self.regional_linear_drift:
-            a[:n, i] = self.X_ADJUSTED
-            a[i, :n] = self.X_ADJUSTED
-            i += 1
-            a[:n, i] = self.Y_ADJUSTED
-            a[i, :n] = self.Y_ADJUSTED
-            i += 1
-        if self.point_log_drift:
-            for well_no in range(self.point_log_array.shape[0]):
-                log_dist = np.log(
-                    np.sqrt(
-                        (self.X_ADJUSTED - self.point_log_array[well_no, 0]) ** 2
-                        + (self.Y_ADJUSTED - self.point_log_array[well_no, 1]) ** 2
-                    )
-                )
-                if np.any(np.isinf(log_dist)):
-                    log_dist[np.isinf(log_dist)] = -100.0
-                a[:n, i] = -self.point_log_array[well_no, 2] * log_dist
-                a[i, :n] = -self.point_log_array[well_no, 2] * log_dist
-                i += 1
-        if self.external_Z_drift:
-            a[:n, i] = self.z_scalars
-            a[i, :n] = self.z_scalars
-            i += 1
-        if self.specified_drift:
-            for arr in self.specified_drift_data_arrays:
-                a[:n, i] = arr
-                a[i, :n] = arr
-                i += 1
-        if self.functional_drift:
-            for func in self.functional_drift_terms:
-                a[:n, i] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
-                a[i, :n] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
-                i += 1
-        if i != n_withdrifts:
-            warnings.warn(
-                "Error in creating kriging matrix. Kriging may fail.", RuntimeWarning
-            )
-        if self.UNBIAS:
-            a[n_withdrifts, :n] = 1.0
-            a[:n, n_withdrifts] = 1.0
-            a[n : n_withdrifts + 1, n : n_withdrifts + 1] = 0.0
-
-        return a
-
-    def _exec_vector(self, a, bd, xy, xy_orig, mask, n_withdrifts, spec_drift_grids):
-        """Solves the kriging system as a vectorized operation. This method
-        can take a lot of memory for large grids and/or large datasets."""
-
-        npt = bd.shape[0]
-        n = self.X_ADJUSTED.shape[0]
-        zero_index = None
-        zero_value = False
-
-        # use the desired method to invert the kriging matrix
-        if self.pseudo_inv:
-            a_inv = P_INV[self.pseudo_inv_type](a)
-        else:
-            a_inv = scipy.linalg.inv(a)
-
-        if np.any(np.absolute(bd) <= self.eps):
-            zero_value = True
-            zero_index = np.where(np.absolute(bd) <= self.eps)
-
-        if self.UNBIAS:
-            b = np.zeros((npt, n_withdrifts + 1, 1))
-        else:
-            b = np.zeros((npt, n_withdrifts, 1))
-        b[:, :n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
-        if zero_value and self.exact_values:
-            b[zero_index[0], zero_index[1], 0] = 0.0
-
-        i = n
-        if self.regional_linear_drift:
-            b[:, i, 0] = xy[:, 0]
-            i += 1
-            b[:, i, 0] = xy[:, 1]
-            i += 1
-        if self.point_log_drift:
-            for well_no in range(self.point_log_array.shape[0]):
-                log_dist = np.log(
-                    np.sqrt(
-                        (xy[:, 0] - self.point_log_array[well_no, 0]) ** 2
-                        + (xy[:, 1] - self.point_log_array[well_no, 1]) ** 2
-                    )
-                )
-                if np.any(np.isinf(log_dist)):
-                    log_dist[np.isinf(log_dist)] = -100.0
-                b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
-                i += 1
-        if self.external_Z_drift:
-            b[:, i, 0] = self._calculate_data_point_zscalars(
-                xy_orig[:, 0], xy_orig[:, 1]
-            )
-            i += 1
-        if self.specified_drift:
-            for spec_vals in spec_drift_grids:
-                b[:, i, 0] = spec_vals.flatten()
-                i += 1
-        if self.functional_drift:
-            for func in self.functional_drift_terms:
-                b[:, i, 0] = func(xy[:, 0], xy[:, 1])
-                i += 1
-        if i != n_withdrifts:
-            warnings.warn(
-                "Error in setting up kriging system. Kriging may fail.",
-                RuntimeWarning,
-            )
-        if self.UNBIAS:
-            b[:, n_withdrifts, 0] = 1.0
-
-        if (~mask).any():
-            mask_b = np.repeat(
-                mask[:, np.newaxis, np.newaxis], n_withdrifts + 1, axis=1
-            )
-            b = np.ma.array(b, mask=mask_b)
-
-        if self.UNBIAS:
-            x = (
-                np.dot(a_inv, b.reshape((npt, n_withdrifts + 1)).T)
-                .reshape((1, n_withdrifts + 1, npt))
-                .T
-            )
-        else:
-            x = (
-                np.dot(a_inv, b.reshape((npt, n_withdrifts)).T)
-                .reshape((1, n_withdrifts, npt))
-                .T
-            )
-        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)
-        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)
-
-        return zvalues, sigmasq
-
-    def _exec_loop(self, a, bd_all, xy, xy_orig, mask, n_withdrifts, spec_drift_grids):
-        """Solves the kriging system by looping over all specified points.
-        Less memory-intensive, but involves a Python-level loop."""
-
-        npt = bd_all.shape[0]
-        n = self.X_ADJUSTED.shape[0]
-        zvalues = np.zeros(npt)
-        sigmasq = np.zeros(npt)
-
-        # use the desired method to invert the kriging matrix
-        if self.pseudo_inv:
-            a_inv = P_INV[self.pseudo_inv_type](a)
-        else:
-            a_inv = scipy.linalg.inv(a)
-
-        for j in np.nonzero(~mask)[
-            0
-        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
-            bd = bd_all[j]  # otherwise it takes the non-masked elements.
-            if np.any(np.absolute(bd) <= self.eps):
-                zero_value = True
-                zero_index = np.where(np.absolute(bd) <= self.eps)
-            else:
-                zero_index = None
-                zero_value = False
-
-            if self.UNBIAS:
-                b = np.zeros((n_withdrifts + 1, 1))
-            else:
-                b = np.zeros((n_withdrifts, 1))
-            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
-            if zero_value and self.exact_values:
-                b[zero_index[0], 0] = 0.0
-
-            i = n
-            if self.regional_linear_drift:
-                b[i, 0] = xy[j, 0]
-                i += 1
-                b[i, 0] = xy[j, 1]
-                i += 1
-            if self.point_log_drift:
-                for well_no in range(self.point_log_array.shape[0]):
-                    log_dist = np.log(
-                        np.sqrt(
-                            (xy[j, 0] - self.point_log_array[well_no, 0]) ** 2
-                            + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
-                        )
-                    )
-                    if np.any(np.isinf(log_dist)):
-                        log_dist[np.isinf(log_dist)] = -100.0
-                    b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
-                    i += 1
-            if self.external_Z_drift:
-                b[i, 0] = self._calculate_data_point_zscalars(
-                    xy_orig[j, 0], xy_orig[j, 1], type_="scalar"
-                )
-                i += 1
-            if self.specified_drift:
-                for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
-                    i += 1
-            if self.functional_drift:
-                for func in self.functional_drift_terms:
-                    b[i, 0] = func(xy[j, 0], xy[j, 1])
-                    i += 1
-            if i != n_withdrifts:
-                warnings.warn(
-                    "Error in setting up kriging system. Kriging may fail.",
-                    RuntimeWarning,
-                )
-            if self.UNBIAS:
-                b[n_withdrifts, 0] = 1.0
-
-            x = np.dot(a_inv, b)
-            zvalues[j] = np.sum(x[:n, 0] * self.Z)
-            sigmasq[j] = np.sum(x[:, 0] * -b[:, 0])
-
-        return zvalues, sigmasq
-
-    def execute(
-        self,
-        style,
-        xpoints,
-        ypoints,
-        mask=None,
-        backend="vectorized",
-        specified_drift_arrays=None,
-    ):
-        """Calculates a kriged grid and the associated variance.
-        Includes drift terms.
-
-        Parameters
-        ----------
-        style : str
-            Specifies how to treat input kriging points. Specifying 'grid'
-            treats xpoints and ypoints as two arrays of x and y coordinates
-            that define a rectangular grid. Specifying 'points' treats xpoints
-            and ypoints as two arrays that provide coordinate pairs at which
-            to solve the kriging system. Specifying 'masked' treats xpoints and
-            ypoints as two arrays of x and y coordinates that define a
-            rectangular grid and uses mask to only evaluate specific points
-            in the grid.
-        xpoints : array_like, shape (N,) or (N, 1)
-            If style is specific as 'grid' or 'masked', x-coordinates of
-            MxN grid. If style is specified as 'points', x-coordinates of
-            specific points at which to solve kriging system.
-        ypoints : array-like, shape (M,) or (M, 1)
-            If style is specified as 'grid' or 'masked', y-coordinates of
-            MxN grid. If style is specified as 'points', y-coordinates of
-            specific points at which to solve kriging system.
-            Note that in this case, xpoints and ypoints must have the same
-            dimensions (i.e., M = N).
-        mask : boolean array, shape (M, N), optional
-            Specifies the points in the rectangular grid defined by xpoints and
-            ypoints that are to be excluded in the kriging calculations.
-            Must be provided if style is specified as 'masked'. False indicates
-            that the point should not be masked, so the kriging system will be
-            solved at the point. True indicates that the point should be masked,
-            so the kriging system should will not be solved at the point.
-        backend : str, optional
-            Specifies which approach to use in kriging. Specifying 'vectorized'
-            will solve the entire kriging problem at once in a vectorized
-            operation. This approach is faster but also can consume a
-            significant amount of memory for large grids and/or large datasets.
-            Specifying 'loop' will loop through each point at which the kriging
-            system is to be solved. This approach is slower but also less
-            memory-intensive. Default is 'vectorized'.
-            Note that Cython backend is not supported for UK.
-        specified_drift_arrays : list of array-like objects, optional
-            Specifies the drift values at the points at which the kriging
-            system is to be evaluated. Required if 'specified' drift provided
-            in the list of drift terms when instantiating the UniversalKriging
-            class. Must be a list of arrays in the same order as the list
-            provided when instantiating the kriging object. Array(s) must be
-            the same dimension as the specified grid or have the same number of
-            points as the specified points; i.e., the arrays either must be
-            shape (M, N), where M is the number of y grid-points and N is the
-            number of x grid-points, or shape (M, ) or (N, 1), where M is the
-            number of  points at which to evaluate the kriging system.
-
-        Returns
-        -------
-        zvalues : ndarray, shape (M, N) or (N, 1)
-            Z-values of specified grid or at the specified set of points.
-            If style was specified as 'masked', zvalues will be a numpy
-            masked array.
-        sigmasq : ndarray, shape (M, N) or (N, 1)
-            Variance at specified grid points or at the specified set of points.
-            If style was specified as 'masked', sigmasq will be a numpy
-            masked array.
-        """
-
-        if self.verbose:
-            print("Executing Universal Kriging...\n")
-
-        if style != "grid" and style != "masked" and style != "points":
-            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
-
-        n = self.X_ADJUSTED.shape[0]
-        n_withdrifts = n
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        nx = xpts.size
-        ny = ypts.size
-        if self.regional_linear_drift:
-            n_withdrifts += 2
-        if self.point_log_drift:
-            n_withdrifts += self.point_log_array.shape[0]
-        if self.external_Z_drift:
-            n_withdrifts += 1
-        if self.specified_drift:
-            n_withdrifts += len(self.specified_drift_data_arrays)
-        if self.functional_drift:
-            n_withdrifts += len(self.functional_drift_terms)
-        a = self._get_kriging_matrix(n, n_withdrifts)
-
-        if style in ["grid", "masked"]:
-            if style == "masked":
-                if mask is None:
-                    raise IOError(
-                        "Must specify boolean masking array when style is 'masked'."
-                    )
-                if mask.shape[0] != ny or mask.shape[1] != nx:
-                    if mask.shape[0] == nx and mask.shape[1] == ny:
-                        mask = mask.T
-                    else:
-                        raise ValueError(
-                            "Mask dimensions do not match specified grid dimensions."
-                        )
-                mask = mask.flatten()
-            npt = ny * nx
-            grid_x, grid_y = np.meshgrid(xpts, ypts)
-            xpts = grid_x.flatten()
-            ypts = grid_y.flatten()
-
-        elif style == "points":
-            if xpts.size != ypts.size:
-                raise ValueError(
-                    "xpoints and ypoints must have same "
-                    "dimensions when treated as listing "
-                    "discrete points."
-                )
-            npt = nx
-        else:
-            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
-
-        if specified_drift_arrays is None:
-            specified_drift_arrays = []
-        spec_drift_grids = []
-        if self.specified_drift:
-            if len(specified_drift_arrays) == 0:
-                raise ValueError(
-                    "Must provide drift values for kriging points "
-                    "when using 'specified' drift capability."
-                )
-            if type(specified_drift_arrays) is not list:
-                raise TypeError(
-                    "Arrays for specified drift terms must be "
-                    "encapsulated in a list."
-                )
-            for spec in specified_drift_arrays:
-                if style in ["grid", "masked"]:
-                    if spec.ndim < 2:
-                        raise ValueError(
-                            "Dimensions of drift values array do "
-                            "not match specified grid dimensions."
-                        )
-                    elif spec.shape[0] != ny or spec.shape[1] != nx:
-                        if spec.shape[0] == nx and spec.shape[1] == ny:
-                            spec_drift_grids.append(np.squeeze(spec.T))
-                        else:
-                            raise ValueError(
-                                "Dimensions of drift values array "
-                                "do not match specified grid "
-                                "dimensions."
-                            )
-                    else:
-                        spec_drift_grids.append(np.squeeze(spec))
-                elif style == "points":
-                    if spec.ndim != 1:
-                        raise ValueError(
-                            "Dimensions of drift values array do "
-                            "not match specified grid dimensions."
-                        )
-                    elif spec.shape[0] != xpts.size:
-                        raise ValueError(
-                            "Number of supplied drift values in "
-                            "array do not match specified number "
-                            "of kriging points."
-                        )
-                    else:
-                        spec_drift_grids.append(np.squeeze(spec))
-            if len(spec_drift_grids) != len(self.specified_drift_data_arrays):
-                raise ValueError(
-                    "Inconsistent number of specified drift terms supplied."
-                )
-        else:
-            if len(specified_drift_arrays) != 0:
-                warnings.warn(
-                    "Provided specified drift values, but "
-                    "'specified' drift was not initialized during "
-                    "instantiation of UniversalKriging class.",
-                    RuntimeWarning,
-                )
-
-        xy_points_original = np.concatenate(
-            (xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1
-        )
-        xpts, ypts = _adjust_for_anisotropy(
-            np.vstack((xpts, ypts)).T,
-            [self.XCENTER, self.YCENTER],
-            [self.anisotropy_scaling],
-            [self.anisotropy_angle],
-        ).T
-        xy_points = np.concatenate((xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1)
-        xy_data = np.concatenate(
-            (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
-        )
-
-        if style != "masked":
-            mask = np.zeros(npt, dtype="bool")
-
-        bd = cdist(xy_points, xy_data, "euclidean")
-        if backend == "vectorized":
-            zvalues, sigmasq = self._exec_vector(
-                a,
-                bd,
-                xy_points,
-                xy_points_original,
-                mask,
-                n_withdrifts,
-                spec_drift_grids,
-            )
-        elif backend == "loop":
-            zvalues, sigmasq = self._exec_loop(
-                a,
-                bd,
-                xy_points,
-                xy_points_original,
-                mask,
-                n_withdrifts,
-                spec_drift_grids,
-            )
-        else:
-            raise ValueError(
-                "Specified backend {} is not supported "
-                "for 2D universal kriging.".format(backend)
-            )
-
-        if style == "masked":
-            zvalues = np.ma.array(zvalues, mask=mask)
-            sigmasq = np.ma.array(sigmasq, mask=mask)
-
-        if style in ["masked", "grid"]:
-            zvalues = zvalues.reshape((ny, nx))
-            sigmasq = sigmasq.reshape((ny, nx))
-
-        return zvalues, sigmasq
+# coding: utf-8
+"""
+PyKrige
+=======
+
+Code by Benjamin S. Murphy and the PyKrige Developers
+bscott.murphy@gmail.com
+
+Summary
+-------
+Contains class UniversalKriging, provides greater control over 2D kriging by
+utilizing drift terms.
+
+References
+----------
+.. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
+    Hydrogeology, (Cambridge University Press, 1997) 272 p.
+.. [2] N. Cressie, Statistics for spatial data,
+   (Wiley Series in Probability and Statistics, 1993) 137 p.
+Copyright (c) 2015-2020, PyKrige Developers
+"""
+import warnings
+
+import numpy as np
+import scipy.linalg
+from scipy.spatial.distance import cdist
+
+from . import core, variogram_models
+from .compat_gstools import validate_gstools
+from .core import (
+    P_INV,
+    _adjust_for_anisotropy,
+    _find_statistics,
+    _initialize_variogram_model,
+    _make_variogram_parameter_list,
+)
+
+
+class UniversalKriging:
+    """Provides greater control over 2D kriging by utilizing drift terms.
+
+    Parameters
+    ----------
+    x : array_like
+        X-coordinates of data points.
+    y : array_like
+        Y-coordinates of data points.
+    z : array_like
+        Values at data points.
+    variogram_model: str or GSTools CovModel, optional
+        Specified which variogram model to use; may be one of the following:
+        linear, power, gaussian, spherical, exponential, hole-effect.
+        Default is linear variogram model. To utilize a custom variogram model,
+        specify 'custom'; you must also provide variogram_parameters and
+        variogram_function. Note that the hole-effect model is only
+        technically correct for one-dimensional problems.
+        You can also use a
+        `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
+    variogram_parameters : list or dict, optional
+        Parameters that define the specified variogram model. If not provided,
+        parameters will be automatically calculated using a "soft" L1 norm
+        minimization scheme. For variogram model parameters provided in a dict,
+        the required dict keys vary according to the specified variogram
+        model: ::
+
+           # linear
+               {'slope': slope, 'nugget': nugget}
+           # power
+               {'scale': scale, 'exponent': exponent, 'nugget': nugget}
+           # gaussian, spherical, exponential and hole-effect:
+               {'sill': s, 'range': r, 'nugget': n}
+               # OR
+               {'psill': p, 'range': r, 'nugget': n}
+
+        Note that either the full sill or the partial sill
+        (psill = sill - nugget) can be specified in the dict.
+        For variogram model parameters provided in a list, the entries
+        must be as follows: ::
+
+           # linear
+               [slope, nugget]
+           # power
+               [scale, exponent, nugget]
+           # gaussian, spherical, exponential and hole-effect:
+               [sill, range, nugget]
+
+        Note that the full sill (NOT the partial sill) must be specified
+        in the list format.
+        For a custom variogram model, the parameters are required, as custom
+        variogram models will not automatically be fit to the data.
+        Furthermore, the parameters must be specified in list format, in the
+        order in which they are used in the callable function (see
+        variogram_function for more information). The code does not check
+        that the provided list contains the appropriate number of parameters
+        for the custom variogram model, so an incorrect parameter list in
+        such a case will probably trigger an esoteric exception someplace
+        deep in the code.
+        NOTE that, while the list format expects the full sill, the code
+        itself works internally with the partial sill.
+    variogram_function : callable, optional
+        A callable function that must be provided if variogram_model is
+        specified as 'custom'. The function must take only two arguments:
+        first, a list of parameters for the variogram model; second,
+        the distances at which to calculate the variogram model. The list
+        provided in variogram_parameters will be passed to the function
+        as the first argument.
+    nlags : int, optional
+        Number of averaging bins for the semivariogram. Default is 6.
+    weight : bool, optional
+        Flag that specifies if semivariance at smaller lags should be weighted
+        more heavily when automatically calculating variogram model.
+        The routine is currently hard-coded such  that the weights are
+        calculated from a logistic function, so weights at small lags are ~1
+        and weights at the longest lags are ~0; the center of the logistic
+        weighting is hard-coded to be at 70% of the distance from the shortest
+        lag to the largest lag. Setting this parameter to True indicates that
+        weights will be applied. Default is False.
+        (Kitanidis suggests that the values at smaller lags are more
+        important in fitting a variogram model, so the option is provided
+        to enable such weighting.)
+    anisotropy_scaling : float, optional
+        Scalar stretching value to take into account anisotropy.
+        Default is 1 (effectively no stretching).
+        Scaling is applied in the y-direction in the rotated data frame
+        (i.e., after adjusting for the anisotropy_angle, if anisotropy_angle
+        is not 0).
+    anisotropy_angle : float, optional
+        CCW angle (in degrees) by which to rotate coordinate system in order
+        to take into account anisotropy. Default is 0 (no rotation).
+        Note that the coordinate system is rotated.
+    drift_terms : list of strings, optional
+        List of drift terms to include in universal kriging. Supported drift
+        terms are currently 'regional_linear', 'point_log', 'external_Z',
+        'specified', and 'functional'.
+    point_drift : array_like, optional
+        Array-like object that contains the coordinates and strengths of the
+        point-logarithmic drift terms. Array shape must be (N, 3), where N is
+        the number of point drift terms. First column (index 0) must contain
+        x-coordinates, second column (index 1) must contain y-coordinates,
+        and third column (index 2) must contain the strengths of each
+        point term. Strengths are relative, so only the relation of the values
+        to each other matters. Note that the code will appropriately deal with
+        point-logarithmic terms that are at the same coordinates as an
+        evaluation point or data point, but Python will still kick out a
+        warning message that an ln(0) has been encountered. If the problem
+        involves anisotropy, the well coordinates will be adjusted and the
+        drift values will be calculated in the adjusted data frame.
+    external_drift : array_like, optional
+        Gridded data used for the external Z scalar drift term.
+        Must be shape (M, N), where M is in the y-direction and N is in the
+        x-direction. Grid spacing does not need to be constant. If grid spacing
+        is not constant, must specify the grid cell sizes. If the problem
+        involves anisotropy, the external drift values are extracted based on
+        the pre-adjusted coordinates (i.e., the original coordinate system).
+    external_drift_x : array_like, optional
+        X-coordinates for gridded external Z-scalar data. Must be shape (M,)
+        or (M, 1), where M is the number of grid cells in the x-direction.
+        The coordinate is treated as the center of the cell.
+    external_drift_y : array_like, optional
+        Y-coordinates for gridded external Z-scalar data. Must be shape (N,)
+        or (N, 1), where N is the number of grid cells in the y-direction.
+        The coordinate is treated as the center of the cell.
+    specified_drift : list of array-like objects, optional
+        List of arrays that contain the drift values at data points.
+        The arrays must be shape (N,) or (N, 1), where N is the number of
+        data points. Any number of specified-drift terms may be used.
+    functional_drift : list of callable objects, optional
+        List of callable functions that will be used to evaluate drift terms.
+        The function must be a function of only the two spatial coordinates
+        and must return a single value for each coordinate pair.
+        It must be set up to be called with only two arguments, first an array
+        of x values and second an array of y values. If the problem involves
+        anisotropy, the drift values are calculated in the adjusted data frame.
+    verbose : bool, optional
+        Enables program text output to monitor kriging process.
+        Default is False (off).
+    enable_plotting : boolean, optional
+        Enables plotting to display variogram. Default is False (off).
+    exact_values : bool, optional
+        If True, interpolation provides input values at input locations.
+        If False, interpolation accounts for variance/nugget within input
+        values at input locations and does not behave as an
+        exact-interpolator [2]. Note that this only has an effect if
+        there is variance/nugget present within the input data since it is
+        interpreted as measurement error. If the nugget is zero, the kriged
+        field will behave as an exact interpolator.
+    pseudo_inv : :class:`bool`, optional
+        Whether the kriging system is solved with the pseudo inverted
+        kriging matrix. If `True`, this leads to more numerical stability
+        and redundant points are averaged. But it can take more time.
+        Default: False
+    pseudo_inv_type : :class:`str`, optional
+        Here you can select the algorithm to compute the pseudo-inverse matrix:
+
+            * `"pinv"`: use `pinv` from `scipy` which uses `lstsq`
+            * `"pinvh"`: use `pinvh` from `scipy` which uses eigen-values
+
+        Default: `"pinv"`
+
+    References
+    ----------
+    .. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
+       Hydrogeology, (Cambridge University Press, 1997) 272 p.
+    .. [2] N. Cressie, Statistics for spatial data,
+       (Wiley Series in Probability and Statistics, 1993) 137 p.
+    """
+
+    UNBIAS = True  # This can be changed to remove the unbiasedness condition
+    # Really for testing purposes only...
+    eps = 1.0e-10  # Cutoff for comparison to zero
+    variogram_dict = {
+        "linear": variogram_models.linear_variogram_model,
+        "power": variogram_models.power_variogram_model,
+        "gaussian": variogram_models.gaussian_variogram_model,
+        "spherical": variogram_models.spherical_variogram_model,
+        "exponential": variogram_models.exponential_variogram_model,
+        "hole-effect": variogram_models.hole_effect_variogram_model,
+    }
+
+    def __init__(
+        self,
+        x,
+        y,
+        z,
+        variogram_model="linear",
+        variogram_parameters=None,
+        variogram_function=None,
+        nlags=6,
+        weight=False,
+        anisotropy_scaling=1.0,
+        anisotropy_angle=0.0,
+        drift_terms=None,
+        point_drift=None,
+        external_drift=None,
+        external_drift_x=None,
+        external_drift_y=None,
+        specified_drift=None,
+        functional_drift=None,
+        verbose=False,
+        enable_plotting=False,
+        exact_values=True,
+        pseudo_inv=False,
+        pseudo_inv_type="pinv",
+    ):
+        # config the pseudo inverse
+        self.pseudo_inv = bool(pseudo_inv)
+        self.pseudo_inv_type = str(pseudo_inv_type)
+        if self.pseudo_inv_type not in P_INV:
+            raise ValueError("pseudo inv type not valid: " + str(pseudo_inv_type))
+
+        # Deal with mutable default argument
+        if drift_terms is None:
+            drift_terms = []
+        if specified_drift is None:
+            specified_drift = []
+        if functional_drift is None:
+            functional_drift = []
+
+        # set up variogram model and parameters...
+        self.variogram_model = variogram_model
+        self.model = None
+
+        if not isinstance(exact_values, bool):
+            raise ValueError("exact_values has to be boolean True or False")
+        self.exact_values = exact_values
+
+        # check if a GSTools covariance model is given
+        if hasattr(self.variogram_model, "pykrige_kwargs"):
+            # save the model in the class
+            self.model = self.variogram_model
+            validate_gstools(self.model)
+            if self.model.field_dim == 3:
+                raise ValueError("GSTools: model dim is not 1 or 2")
+            if self.model.latlon:
+                raise ValueError(
+                    "GSTools: latlon models not supported for universal kriging"
+                )
+            self.variogram_model = "custom"
+            variogram_function = self.model.pykrige_vario
+            variogram_parameters = []
+            anisotropy_scaling = self.model.pykrige_anis
+            anisotropy_angle = self.model.pykrige_angle
+        if (
+            self.variogram_model not in self.variogram_dict.keys()
+            and self.variogram_model != "custom"
+        ):
+            raise ValueError(
+                "Specified variogram model '%s' is not supported." % variogram_model
+            )
+        elif self.variogram_model == "custom":
+            if variogram_function is None or not callable(variogram_function):
+                raise ValueError(
+                    "Must specify callable function for custom variogram model."
+                )
+            else:
+                self.variogram_function = variogram_function
+        else:
+            self.variogram_function = self.variogram_dict[self.variogram_model]
+
+        # Code assumes 1D input arrays. Ensures that any extraneous dimensions
+        # don't get in the way. Copies are created to avoid any problems with
+        # referencing the original passed arguments.
+        self.X_ORIG = np.atleast_1d(
+            np.squeeze(np.array(x, copy=True, dtype=np.float64))
+        )
+        self.Y_ORIG = np.atleast_1d(
+            np.squeeze(np.array(y, copy=True, dtype=np.float64))
+        )
+        self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))
+
+        self.verbose = verbose
+        self.enable_plotting = enable_plotting
+        if self.enable_plotting and self.verbose:
+            print("Plotting Enabled\n")
+
+        # adjust for anisotropy...
+        self.XCENTER = (np.amax(self.X_ORIG) + np.amin(self.X_ORIG)) / 2.0
+        self.YCENTER = (np.amax(self.Y_ORIG) + np.amin(self.Y_ORIG)) / 2.0
+        self.anisotropy_scaling = anisotropy_scaling
+        self.anisotropy_angle = anisotropy_angle
+        if self.verbose:
+            print("Adjusting data for anisotropy...")
+        self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
+            np.vstack((self.X_ORIG, self.Y_ORIG)).T,
+            [self.XCENTER, self.YCENTER],
+            [self.anisotropy_scaling],
+            [self.anisotropy_angle],
+        ).T
+
+        if self.verbose:
+            print("Initializing variogram model...")
+
+        # see comment in ok.py about 'use_psill' kwarg...
+        vp_temp = _make_variogram_parameter_list(
+            self.variogram_model, variogram_parameters
+        )
+        (
+            self.lags,
+            self.semivariance,
+            self.variogram_model_parameters,
+        ) = _initialize_variogram_model(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_model,
+            vp_temp,
+            self.variogram_function,
+            nlags,
+            weight,
+            "euclidean",
+        )
+        # TODO extend geographic capabilities to UK...
+
+        if self.verbose:
+            if self.variogram_model == "linear":
+                print("Using '%s' Variogram Model" % "linear")
+                print("Slope:", self.variogram_model_parameters[0])
+                print("Nugget:", self.variogram_model_parameters[1], "\n")
+            elif self.variogram_model == "power":
+                print("Using '%s' Variogram Model" % "power")
+                print("Scale:", self.variogram_model_parameters[0])
+                print("Exponent:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+            elif self.variogram_model == "custom":
+                print("Using Custom Variogram Model")
+            else:
+                print("Using '%s' Variogram Model" % self.variogram_model)
+                print("Partial Sill:", self.variogram_model_parameters[0])
+                print(
+                    "Full Sill:",
+                    self.variogram_model_parameters[0]
+                    + self.variogram_model_parameters[2],
+                )
+                print("Range:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+        if self.enable_plotting:
+            self.display_variogram_model()
+
+        if self.verbose:
+            print("Calculating statistics on variogram model fit...")
+        self.delta, self.sigma, self.epsilon = _find_statistics(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_function,
+            self.variogram_model_parameters,
+            "euclidean",
+            self.pseudo_inv,
+        )
+        self.Q1 = core.calcQ1(self.epsilon)
+        self.Q2 = core.calcQ2(self.epsilon)
+        self.cR = core.calc_cR(self.Q2, self.sigma)
+        if self.verbose:
+            print("Q1 =", self.Q1)
+            print("Q2 =", self.Q2)
+            print("cR =", self.cR, "\n")
+
+        if self.verbose:
+            print("Initializing drift terms...")
+
+        # Note that the regional linear drift values will be based
+        # on the adjusted coordinate system, Really, it doesn't actually
+        # matter which coordinate system is used here.
+        if "regional_linear" in drift_terms:
+            self.regional_linear_drift = True
+            if self.verbose:
+                print("Implementing regional linear drift.")
+        else:
+            self.regional_linear_drift = False
+
+        # External Z scalars are extracted using the original
+        # (unadjusted) coordinates.
+        if "external_Z" in drift_terms:
+            if external_drift is None:
+                raise ValueError("Must specify external Z drift terms.")
+            if external_drift_x is None or external_drift_y is None:
+                raise ValueError("Must specify coordinates of external Z drift terms.")
+            self.external_Z_drift = True
+            if (
+                external_drift.shape[0] != external_drift_y.shape[0]
+                or external_drift.shape[1] != external_drift_x.shape[0]
+            ):
+                if (
+                    external_drift.shape[0] == external_drift_x.shape[0]
+                    and external_drift.shape[1] == external_drift_y.shape[0]
+                ):
+                    self.external_Z_array = np.array(external_drift.T)
+                else:
+                    raise ValueError(
+                        "External drift dimensions do not match "
+                        "provided x- and y-coordinate dimensions."
+                    )
+            else:
+                self.external_Z_array = np.array(external_drift)
+            self.external_Z_array_x = np.array(external_drift_x).flatten()
+            self.external_Z_array_y = np.array(external_drift_y).flatten()
+            self.z_scalars = self._calculate_data_point_zscalars(
+                self.X_ORIG, self.Y_ORIG
+            )
+            if self.verbose:
+                print("Implementing external Z drift.")
+        else:
+            self.external_Z_drift = False
+
+        # Well coordinates are rotated into adjusted coordinate frame.
+        if "point_log" in drift_terms:
+            if point_drift is None:
+                raise ValueError(
+                    "Must specify location(s) and strength(s) of point drift terms."
+                )
+            self.point_log_drift = True
+            point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
+            self.point_log_array = np.zeros(point_log.shape)
+            self.point_log_array[:, 2] = point_log[:, 2]
+            self.point_log_array[:, :2] = _adjust_for_anisotropy(
+                np.vstack((point_log[:, 0], point_log[:, 1])).T,
+                [self.XCENTER, self.YCENTER],
+                [self.anisotropy_scaling],
+                [self.anisotropy_angle],
+            )
+            if self.verbose:
+                print(
+                    "Implementing external point-logarithmic drift; "
+                    "number of points =",
+                    self.point_log_array.shape[0],
+                    "\n",
+                )
+        else:
+            self.point_log_drift = False
+
+        if "specified" in drift_terms:
+            if type(specified_drift) is not list:
+                raise TypeError(
+                    "Arrays for specified drift terms must be "
+                    "encapsulated in a list."
+                )
+            if len(specified_drift) == 0:
+                raise ValueError(
+                    "Must provide at least one drift-value array "
+                    "when using the 'specified' drift capability."
+                )
+            self.specified_drift = True
+            self.specified_drift_data_arrays = []
+            for term in specified_drift:
+                specified = np.squeeze(np.array(term, copy=True))
+                if specified.size != self.X_ORIG.size:
+                    raise ValueError(
+                        "Must specify the drift values for each "
+                        "data point when using the 'specified' "
+                        "drift capability."
+                    )
+                self.specified_drift_data_arrays.append(specified)
+        else:
+            self.specified_drift = False
+
+        # The provided callable functions will be evaluated using
+        # the adjusted coordinates.
+        if "functional" in drift_terms:
+            if type(functional_drift) is not list:
+                raise TypeError(
+                    "Callables for functional drift terms must "
+                    "be encapsulated in a list."
+                )
+            if len(functional_drift) == 0:
+                raise ValueError(
+                    "Must provide at least one callable object "
+                    "when using the 'functional' drift capability."
+                )
+            self.functional_drift = True
+            self.functional_drift_terms = functional_drift
+        else:
+            self.functional_drift = False
+
+    def _calculate_data_point_zscalars(self, x, y, type_="array"):
+        """Determines the Z-scalar values at the specified coordinates
+        for use when setting up the kriging matrix. Uses bilinear
+        interpolation.
+        Currently, the Z scalar values are extracted from the input Z grid
+        exactly at the specified coordinates. This means that if the Z grid
+        resolution is finer than the resolution of the desired kriged grid,
+        there is no averaging of the scalar values to return an average
+        Z value for that cell in the kriged grid. Rather, the exact Z value
+        right at the coordinate is used."""
+
+        if type_ == "scalar":
+            nx = 1
+            ny = 1
+            z_scalars = None
+        else:
+            if x.ndim == 1:
+                nx = x.shape[0]
+                ny = 1
+            else:
+                ny = x.shape[0]
+                nx = x.shape[1]
+            z_scalars = np.zeros(x.shape)
+
+        for m in range(ny):
+            for n in range(nx):
+                if type_ == "scalar":
+                    xn = x
+                    yn = y
+                else:
+                    if x.ndim == 1:
+                        xn = x[n]
+                        yn = y[n]
+                    else:
+                        xn = x[m, n]
+                        yn = y[m, n]
+
+                if (
+                    xn > np.amax(self.external_Z_array_x)
+                    or xn < np.amin(self.external_Z_array_x)
+                    or yn > np.amax(self.external_Z_array_y)
+                    or yn < np.amin(self.external_Z_array_y)
+                ):
+                    raise ValueError(
+                        "External drift array does not cover "
+                        "specified kriging domain."
+                    )
+
+                # bilinear interpolation
+                external_x2_index = np.amin(np.where(self.external_Z_array_x >= xn)[0])
+                external_x1_index = np.amax(np.where(self.external_Z_array_x <= xn)[0])
+                external_y2_index = np.amin(np.where(self.external_Z_array_y >= yn)[0])
+                external_y1_index = np.amax(np.where(self.external_Z_array_y <= yn)[0])
+                if external_y1_index == external_y2_index:
+                    if external_x1_index == external_x2_index:
+                        z = self.external_Z_array[external_y1_index, external_x1_index]
+                    else:
+                        z = (
+                            self.external_Z_array[external_y1_index, external_x1_index]
+                            * (self.external_Z_array_x[external_x2_index] - xn)
+                            + self.external_Z_array[
+                                external_y2_index, external_x2_index
+                            ]
+                            * (xn - self.external_Z_array_x[external_x1_index])
+                        ) / (
+                            self.external_Z_array_x[external_x2_index]
+                            - self.external_Z_array_x[external_x1_index]
+                        )
+                elif external_x1_index == external_x2_index:
+                    if external_y1_index == external_y2_index:
+                        z = self.external_Z_array[external_y1_index, external_x1_index]
+                    else:
+                        z = (
+                            self.external_Z_array[external_y1_index, external_x1_index]
+                            * (self.external_Z_array_y[external_y2_index] - yn)
+                            + self.external_Z_array[
+                                external_y2_index, external_x2_index
+                            ]
+                            * (yn - self.external_Z_array_y[external_y1_index])
+                        ) / (
+                            self.external_Z_array_y[external_y2_index]
+                            - self.external_Z_array_y[external_y1_index]
+                        )
+                else:
+                    z = (
+                        self.external_Z_array[external_y1_index, external_x1_index]
+                        * (self.external_Z_array_x[external_x2_index] - xn)
+                        * (self.external_Z_array_y[external_y2_index] - yn)
+                        + self.external_Z_array[external_y1_index, external_x2_index]
+                        * (xn - self.external_Z_array_x[external_x1_index])
+                        * (self.external_Z_array_y[external_y2_index] - yn)
+                        + self.external_Z_array[external_y2_index, external_x1_index]
+                        * (self.external_Z_array_x[external_x2_index] - xn)
+                        * (yn - self.external_Z_array_y[external_y1_index])
+                        + self.external_Z_array[external_y2_index, external_x2_index]
+                        * (xn - self.external_Z_array_x[external_x1_index])
+                        * (yn - self.external_Z_array_y[external_y1_index])
+                    ) / (
+                        (
+                            self.external_Z_array_x[external_x2_index]
+                            - self.external_Z_array_x[external_x1_index]
+                        )
+                        * (
+                            self.external_Z_array_y[external_y2_index]
+                            - self.external_Z_array_y[external_y1_index]
+                        )
+                    )
+
+                if type_ == "scalar":
+                    z_scalars = z
+                else:
+                    if z_scalars.ndim == 1:
+                        z_scalars[n] = z
+                    else:
+                        z_scalars[m, n] = z
+
+        return z_scalars
+
+    def update_variogram_model(
+        self,
+        variogram_model,
+        variogram_parameters=None,
+        variogram_function=None,
+        nlags=6,
+        weight=False,
+        anisotropy_scaling=1.0,
+        anisotropy_angle=0.0,
+    ):
+        """Allows user to update variogram type and/or
+        variogram model parameters.
+
+        Parameters
+        ----------
+        variogram_model : str or GSTools CovModel
+            May be any of the variogram models listed above.
+            May also be 'custom', in which case variogram_parameters and
+            variogram_function must be specified.
+            You can also use a
+            `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
+        variogram_parameters : list or dict, optional
+            List or dict of variogram model parameters, as explained above.
+            If not provided, a best fit model will be calculated as
+            described above.
+        variogram_function : callable, optional
+            A callable function that must be provided if variogram_model is
+            specified as 'custom'. See above for more information.
+        nlags : int, optional
+            Number of averaging bins for the semivariogram. Defualt is 6.
+        weight : boolean, optional
+            Flag that specifies if semivariance at smaller lags should be
+            weighted more heavily when automatically calculating the
+            variogram model. See above for more information. True indicates
+            that weights will be applied. Default is False.
+        anisotropy_scaling : float, optional
+            Scalar stretching value to take into account anisotropy.
+            Default is 1 (effectively no stretching).
+            Scaling is applied in the y-direction.
+        anisotropy_angle : float, optional
+            CCW angle (in degrees) by which to rotate coordinate system in
+            order to take into account anisotropy. Default is 0 (no rotation).
+        """
+
+        # set up variogram model and parameters...
+        self.variogram_model = variogram_model
+        self.model = None
+        # check if a GSTools covariance model is given
+        if hasattr(self.variogram_model, "pykrige_kwargs"):
+            # save the model in the class
+            self.model = self.variogram_model
+            validate_gstools(self.model)
+            if self.model.field_dim == 3:
+                raise ValueError("GSTools: model dim is not 1 or 2")
+            if self.model.latlon:
+                raise ValueError(
+                    "GSTools: latlon models not supported for universal kriging"
+                )
+            self.variogram_model = "custom"
+            variogram_function = self.model.pykrige_vario
+            variogram_parameters = []
+            anisotropy_scaling = self.model.pykrige_anis
+            anisotropy_angle = self.model.pykrige_angle
+        if (
+            self.variogram_model not in self.variogram_dict.keys()
+            and self.variogram_model != "custom"
+        ):
+            raise ValueError(
+                "Specified variogram model '%s' is not supported." % variogram_model
+            )
+        elif self.variogram_model == "custom":
+            if variogram_function is None or not callable(variogram_function):
+                raise ValueError(
+                    "Must specify callable function for custom variogram model."
+                )
+            else:
+                self.variogram_function = variogram_function
+        else:
+            self.variogram_function = self.variogram_dict[self.variogram_model]
+
+        if (
+            anisotropy_scaling != self.anisotropy_scaling
+            or anisotropy_angle != self.anisotropy_angle
+        ):
+            if self.verbose:
+                print("Adjusting data for anisotropy...")
+            self.anisotropy_scaling = anisotropy_scaling
+            self.anisotropy_angle = anisotropy_angle
+            self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
+                np.vstack((self.X_ORIG, self.Y_ORIG)).T,
+                [self.XCENTER, self.YCENTER],
+                [self.anisotropy_scaling],
+                [self.anisotropy_angle],
+            ).T
+
+        if self.verbose:
+            print("Updating variogram mode...")
+
+        # See note above about the 'use_psill' kwarg...
+        vp_temp = _make_variogram_parameter_list(
+            self.variogram_model, variogram_parameters
+        )
+        (
+            self.lags,
+            self.semivariance,
+            self.variogram_model_parameters,
+        ) = _initialize_variogram_model(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_model,
+            vp_temp,
+            self.variogram_function,
+            nlags,
+            weight,
+            "euclidean",
+        )
+
+        if self.verbose:
+            if self.variogram_model == "linear":
+                print("Using '%s' Variogram Model" % "linear")
+                print("Slope:", self.variogram_model_parameters[0])
+                print("Nugget:", self.variogram_model_parameters[1], "\n")
+            elif self.variogram_model == "power":
+                print("Using '%s' Variogram Model" % "power")
+                print("Scale:", self.variogram_model_parameters[0])
+                print("Exponent:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+            elif self.variogram_model == "custom":
+                print("Using Custom Variogram Model")
+            else:
+                print("Using '%s' Variogram Model" % self.variogram_model)
+                print("Partial Sill:", self.variogram_model_parameters[0])
+                print(
+                    "Full Sill:",
+                    self.variogram_model_parameters[0]
+                    + self.variogram_model_parameters[2],
+                )
+                print("Range:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+        if self.enable_plotting:
+            self.display_variogram_model()
+
+        if self.verbose:
+            print("Calculating statistics on variogram model fit...")
+        self.delta, self.sigma, self.epsilon = _find_statistics(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_function,
+            self.variogram_model_parameters,
+            "euclidean",
+            self.pseudo_inv,
+        )
+        self.Q1 = core.calcQ1(self.epsilon)
+        self.Q2 = core.calcQ2(self.epsilon)
+        self.cR = core.calc_cR(self.Q2, self.sigma)
+        if self.verbose:
+            print("Q1 =", self.Q1)
+            print("Q2 =", self.Q2)
+            print("cR =", self.cR, "\n")
+
+    def display_variogram_model(self):
+        """Displays variogram model with the actual binned data."""
+        import matplotlib.pyplot as plt
+
+        fig = plt.figure()
+        ax = fig.add_subplot(111)
+        ax.plot(self.lags, self.semivariance, "r*")
+        ax.plot(
+            self.lags,
+            self.variogram_function(self.variogram_model_parameters, self.lags),
+            "k-",
+        )
+        plt.show()
+
+    def get_variogram_points(self):
+        """Returns both the lags and the variogram function evaluated at each
+        of them.
+
+        The evaluation of the variogram function and the lags are produced
+        internally. This method is convenient when the user wants to access to
+        the lags and the resulting variogram (according to the model provided)
+        for further analysis.
+
+        Returns
+        -------
+        (tuple) tuple containing:
+            lags (array) - the lags at which the variogram was evaluated
+            variogram (array) - the variogram function evaluated at the lags
+        """
+        return (
+            self.lags,
+            self.variogram_function(self.variogram_model_parameters, self.lags),
+        )
+
+    def switch_verbose(self):
+        """Allows user to switch code talk-back on/off. Takes no arguments."""
+        self.verbose = not self.verbose
+
+    def switch_plotting(self):
+        """Allows user to switch plot display on/off. Takes no arguments."""
+        self.enable_plotting = not self.enable_plotting
+
+    def get_epsilon_residuals(self):
+        """Returns the epsilon residuals for the variogram fit."""
+        return self.epsilon
+
+    def plot_epsilon_residuals(self):
+        """Plots the epsilon residuals for the variogram fit."""
+        import matplotlib.pyplot as plt
+
+        fig = plt.figure()
+        ax = fig.add_subplot(111)
+        ax.scatter(range(self.epsilon.size), self.epsilon, c="k", marker="*")
+        ax.axhline(y=0.0)
+        plt.show()
+
+    def get_statistics(self):
+        """Returns the Q1, Q2, and cR statistics for the variogram fit
+        (in that order). No arguments.
+        """
+        return self.Q1, self.Q2, self.cR
+
+    def print_statistics(self):
+        """Prints out the Q1, Q2, and cR statistics for the variogram fit.
+        NOTE that ideally Q1 is close to zero, Q2 is close to 1,
+        and cR is as small as possible.
+        """
+        print("Q1 =", self.Q1)
+        print("Q2 =", self.Q2)
+        print("cR =", self.cR)
+
+    def _get_kriging_matrix(self, n, n_withdrifts):
+        """Assembles the kriging matrix."""
+
+        xy = np.concatenate(
+            (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
+        )
+        d = cdist(xy, xy, "euclidean")
+        if self.UNBIAS:
+            a = np.zeros((n_withdrifts + 1, n_withdrifts + 1))
+        else:
+            a = np.zeros((n_withdrifts, n_withdrifts))
+        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)
+
+        np.fill_diagonal(a, 0.0)
+
+        i = n
+        if self.regional_linear_drift:
+            a[:n, i] = self.X_ADJUSTED
+            a[i, :n] = self.X_ADJUSTED
+            i += 1
+            a[:n, i] = self.Y_ADJUSTED
+            a[i, :n] = self.Y_ADJUSTED
+            i += 1
+        if self.point_log_drift:
+            for well_no in range(self.point_log_array.shape[0]):
+                log_dist = np.log(
+                    np.sqrt(
+                        (self.X_ADJUSTED - self.point_log_array[well_no, 0]) ** 2
+                        + (self.Y_ADJUSTED - self.point_log_array[well_no, 1]) ** 2
+                    )
+                )
+                if np.any(np.isinf(log_dist)):
+                    log_dist[np.isinf(log_dist)] = -100.0
+                a[:n, i] = -self.point_log_array[well_no, 2] * log_dist
+                a[i, :n] = -self.point_log_array[well_no, 2] * log_dist
+                i += 1
+        if self.external_Z_drift:
+            a[:n, i] = self.z_scalars
+            a[i, :n] = self.z_scalars
+            i += 1
+        if self.specified_drift:
+            for arr in self.specified_drift_data_arrays:
+                a[:n, i] = arr
+                a[i, :n] = arr
+                i += 1
+        if self.functional_drift:
+            for func in self.functional_drift_terms:
+                a[:n, i] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
+                a[i, :n] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
+                i += 1
+        if i != n_withdrifts:
+            warnings.warn(
+                "Error in creating kriging matrix. Kriging may fail.", RuntimeWarning
+            )
+        if self.UNBIAS:
+            a[n_withdrifts, :n] = 1.0
+            a[:n, n_withdrifts] = 1.0
+            a[n : n_withdrifts + 1, n : n_withdrifts + 1] = 0.0
+
+        return a
+
+    def _exec_vector(self, a, bd, xy, xy_orig, mask, n_withdrifts, spec_drift_grids):
+        """Solves the kriging system as a vectorized operation. This method
+        can take a lot of memory for large grids and/or large datasets."""
+
+        npt = bd.shape[0]
+        n = self.X_ADJUSTED.shape[0]
+        zero_index = None
+        zero_value = False
+
+        # use the desired method to invert the kriging matrix
+        if self.pseudo_inv:
+            a_inv = P_INV[self.pseudo_inv_type](a)
+        else:
+            a_inv = scipy.linalg.inv(a)
+
+        if np.any(np.absolute(bd) <= self.eps):
+            zero_value = True
+            zero_index = np.where(np.absolute(bd) <= self.eps)
+
+        if self.UNBIAS:
+            b = np.zeros((npt, n_withdrifts + 1, 1))
+        else:
+            b = np.zeros((npt, n_withdrifts, 1))
+        b[:, :n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
+        if zero_value and self.exact_values:
+            b[zero_index[0], zero_index[1], 0] = 0.0
+
+        i = n
+        if self.regional_linear_drift:
+            b[:, i, 0] = xy[:, 0]
+            i += 1
+            b[:, i, 0] = xy[:, 1]
+            i += 1
+        if self.point_log_drift:
+            for well_no in range(self.point_log_array.shape[0]):
+                log_dist = np.log(
+                    np.sqrt(
+                        (xy[:, 0] - self.point_log_array[well_no, 0]) ** 2
+                        + (xy[:, 1] - self.point_log_array[well_no, 1]) ** 2
+                    )
+                )
+                if np.any(np.isinf(log_dist)):
+                    log_dist[np.isinf(log_dist)] = -100.0
+                b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
+                i += 1
+        if self.external_Z_drift:
+            b[:, i, 0] = self._calculate_data_point_zscalars(
+                xy_orig[:, 0], xy_orig[:, 1]
+            )
+            i += 1
+        if self.specified_drift:
+            for spec_vals in spec_drift_grids:
+                b[:, i, 0] = spec_vals.flatten()
+                i += 1
+        if self.functional_drift:
+            for func in self.functional_drift_terms:
+                b[:, i, 0] = func(xy[:, 0], xy[:, 1])
+                i += 1
+        if i != n_withdrifts:
+            warnings.warn(
+                "Error in setting up kriging system. Kriging may fail.",
+                RuntimeWarning,
+            )
+        if self.UNBIAS:
+            b[:, n_withdrifts, 0] = 1.0
+
+        if (~mask).any():
+            mask_b = np.repeat(
+                mask[:, np.newaxis, np.newaxis], n_withdrifts + 1, axis=1
+            )
+            b = np.ma.array(b, mask=mask_b)
+
+        if self.UNBIAS:
+            x = (
+                np.dot(a_inv, b.reshape((npt, n_withdrifts + 1)).T)
+                .reshape((1, n_withdrifts + 1, npt))
+                .T
+            )
+        else:
+            x = (
+                np.dot(a_inv, b.reshape((npt, n_withdrifts)).T)
+                .reshape((1, n_withdrifts, npt))
+                .T
+            )
+        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)
+        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)
+
+        return zvalues, sigmasq
+
+    def _exec_loop(self, a, bd_all, xy, xy_orig, mask, n_withdrifts, spec_drift_grids):
+        """Solves the kriging system by looping over all specified points.
+        Less memory-intensive, but involves a Python-level loop."""
+
+        npt = bd_all.shape[0]
+        n = self.X_ADJUSTED.shape[0]
+        zvalues = np.zeros(npt)
+        sigmasq = np.zeros(npt)
+
+        # use the desired method to invert the kriging matrix
+        if self.pseudo_inv:
+            a_inv = P_INV[self.pseudo_inv_type](a)
+        else:
+            a_inv = scipy.linalg.inv(a)
+
+        for j in np.nonzero(~mask)[
+            0
+        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
+            bd = bd_all[j]  # otherwise it takes the non-masked elements.
+            if np.any(np.absolute(bd) <= self.eps):
+                zero_value = True
+                zero_index = np.where(np.absolute(bd) <= self.eps)
+            else:
+                zero_index = None
+                zero_value = False
+
+            if self.UNBIAS:
+                b = np.zeros((n_withdrifts + 1, 1))
+            else:
+                b = np.zeros((n_withdrifts, 1))
+            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
+            if zero_value and self.exact_values:
+                b[zero_index[0], 0] = 0.0
+
+            i = n
+            if self.regional_linear_drift:
+                b[i, 0] = xy[j, 0]
+                i += 1
+                b[i, 0] = xy[j, 1]
+                i += 1
+            if self.point_log_drift:
+                for well_no in range(self.point_log_array.shape[0]):
+                    log_dist = np.log(
+                        np.sqrt(
+                            (xy[j, 0] - self.point_log_array[well_no, 0]) ** 2
+                            + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
+                        )
+                    )
+                    if np.any(np.isinf(log_dist)):
+                        log_dist[np.isinf(log_dist)] = -100.0
+                    b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
+                    i += 1
+            if self.external_Z_drift:
+                b[i, 0] = self._calculate_data_point_zscalars(
+                    xy_orig[j, 0], xy_orig[j, 1], type_="scalar"
+                )
+                i += 1
+            if self.specified_drift:
+                for spec_vals in spec_drift_grids:
+                    b[i, 0] = spec_vals.flatten()[j]
+                    i += 1
+            if self.functional_drift:
+                for func in self.functional_drift_terms:
+                    b[i, 0] = func(xy[j, 0], xy[j, 1])
+                    i += 1
+            if i != n_withdrifts:
+                warnings.warn(
+                    "Error in setting up kriging system. Kriging may fail.",
+                    RuntimeWarning,
+                )
+            if self.UNBIAS:
+                b[n_withdrifts, 0] = 1.0
+
+            x = np.dot(a_inv, b)
+            zvalues[j] = np.sum(x[:n, 0] * self.Z)
+            sigmasq[j] = np.sum(x[:, 0] * -b[:, 0])
+
+        return zvalues, sigmasq
+
+    def execute(
+        self,
+        style,
+        xpoints,
+        ypoints,
+        mask=None,
+        backend="vectorized",
+        specified_drift_arrays=None,
+    ):
+        """Calculates a kriged grid and the associated variance.
+        Includes drift terms.
+
+        Parameters
+        ----------
+        style : str
+            Specifies how to treat input kriging points. Specifying 'grid'
+            treats xpoints and ypoints as two arrays of x and y coordinates
+            that define a rectangular grid. Specifying 'points' treats xpoints
+            and ypoints as two arrays that provide coordinate pairs at which
+            to solve the kriging system. Specifying 'masked' treats xpoints and
+            ypoints as two arrays of x and y coordinates that define a
+            rectangular grid and uses mask to only evaluate specific points
+            in the grid.
+        xpoints : array_like, shape (N,) or (N, 1)
+            If style is specific as 'grid' or 'masked', x-coordinates of
+            MxN grid. If style is specified as 'points', x-coordinates of
+            specific points at which to solve kriging system.
+        ypoints : array-like, shape (M,) or (M, 1)
+            If style is specified as 'grid' or 'masked', y-coordinates of
+            MxN grid. If style is specified as 'points', y-coordinates of
+            specific points at which to solve kriging system.
+            Note that in this case, xpoints and ypoints must have the same
+            dimensions (i.e., M = N).
+        mask : boolean array, shape (M, N), optional
+            Specifies the points in the rectangular grid defined by xpoints and
+            ypoints that are to be excluded in the kriging calculations.
+            Must be provided if style is specified as 'masked'. False indicates
+            that the point should not be masked, so the kriging system will be
+            solved at the point. True indicates that the point should be masked,
+            so the kriging system should will not be solved at the point.
+        backend : str, optional
+            Specifies which approach to use in kriging. Specifying 'vectorized'
+            will solve the entire kriging problem at once in a vectorized
+            operation. This approach is faster but also can consume a
+            significant amount of memory for large grids and/or large datasets.
+            Specifying 'loop' will loop through each point at which the kriging
+            system is to be solved. This approach is slower but also less
+            memory-intensive. Default is 'vectorized'.
+            Note that Cython backend is not supported for UK.
+        specified_drift_arrays : list of array-like objects, optional
+            Specifies the drift values at the points at which the kriging
+            system is to be evaluated. Required if 'specified' drift provided
+            in the list of drift terms when instantiating the UniversalKriging
+            class. Must be a list of arrays in the same order as the list
+            provided when instantiating the kriging object. Array(s) must be
+            the same dimension as the specified grid or have the same number of
+            points as the specified points; i.e., the arrays either must be
+            shape (M, N), where M is the number of y grid-points and N is the
+            number of x grid-points, or shape (M, ) or (N, 1), where M is the
+            number of  points at which to evaluate the kriging system.
+
+        Returns
+        -------
+        zvalues : ndarray, shape (M, N) or (N, 1)
+            Z-values of specified grid or at the specified set of points.
+            If style was specified as 'masked', zvalues will be a numpy
+            masked array.
+        sigmasq : ndarray, shape (M, N) or (N, 1)
+            Variance at specified grid points or at the specified set of points.
+            If style was specified as 'masked', sigmasq will be a numpy
+            masked array.
+        """
+
+        if self.verbose:
+            print("Executing Universal Kriging...\n")
+
+        if style != "grid" and style != "masked" and style != "points":
+            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
+
+        n = self.X_ADJUSTED.shape[0]
+        n_withdrifts = n
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        nx = xpts.size
+        ny = ypts.size
+        if self.regional_linear_drift:
+            n_withdrifts += 2
+        if self.point_log_drift:
+            n_withdrifts += self.point_log_array.shape[0]
+        if self.external_Z_drift:
+            n_withdrifts += 1
+        if self.specified_drift:
+            n_withdrifts += len(self.specified_drift_data_arrays)
+        if self.functional_drift:
+            n_withdrifts += len(self.functional_drift_terms)
+        a = self._get_kriging_matrix(n, n_withdrifts)
+
+        if style in ["grid", "masked"]:
+            if style == "masked":
+                if mask is None:
+                    raise IOError(
+                        "Must specify boolean masking array when style is 'masked'."
+                    )
+                if mask.shape[0] != ny or mask.shape[1] != nx:
+                    if mask.shape[0] == nx and mask.shape[1] == ny:
+                        mask = mask.T
+                    else:
+                        raise ValueError(
+                            "Mask dimensions do not match specified grid dimensions."
+                        )
+                mask = mask.flatten()
+            npt = ny * nx
+            grid_x, grid_y = np.meshgrid(xpts, ypts)
+            xpts = grid_x.flatten()
+            ypts = grid_y.flatten()
+
+        elif style == "points":
+            if xpts.size != ypts.size:
+                raise ValueError(
+                    "xpoints and ypoints must have same "
+                    "dimensions when treated as listing "
+                    "discrete points."
+                )
+            npt = nx
+        else:
+            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
+
+        if specified_drift_arrays is None:
+            specified_drift_arrays = []
+        spec_drift_grids = []
+        if self.specified_drift:
+            if len(specified_drift_arrays) == 0:
+                raise ValueError(
+                    "Must provide drift values for kriging points "
+                    "when using 'specified' drift capability."
+                )
+            if type(specified_drift_arrays) is not list:
+                raise TypeError(
+                    "Arrays for specified drift terms must be "
+                    "encapsulated in a list."
+                )
+            for spec in specified_drift_arrays:
+                if style in ["grid", "masked"]:
+                    if spec.ndim < 2:
+                        raise ValueError(
+                            "Dimensions of drift values array do "
+                            "not match specified grid dimensions."
+                        )
+                    elif spec.shape[0] != ny or spec.shape[1] != nx:
+                        if spec.shape[0] == nx and spec.shape[1] == ny:
+                            spec_drift_grids.append(np.squeeze(spec.T))
+                        else:
+                            raise ValueError(
+                                "Dimensions of drift values array "
+                                "do not match specified grid "
+                                "dimensions."
+                            )
+                    else:
+                        spec_drift_grids.append(np.squeeze(spec))
+                elif style == "points":
+                    if spec.ndim != 1:
+                        raise ValueError(
+                            "Dimensions of drift values array do "
+                            "not match specified grid dimensions."
+                        )
+                    elif spec.shape[0] != xpts.size:
+                        raise ValueError(
+                            "Number of supplied drift values in "
+                            "array do not match specified number "
+                            "of kriging points."
+                        )
+                    else:
+                        spec_drift_grids.append(np.squeeze(spec))
+            if len(spec_drift_grids) != len(self.specified_drift_data_arrays):
+                raise ValueError(
+                    "Inconsistent number of specified drift terms supplied."
+                )
+        else:
+            if len(specified_drift_arrays) != 0:
+                warnings.warn(
+                    "Provided specified drift values, but "
+                    "'specified' drift was not initialized during "
+                    "instantiation of UniversalKriging class.",
+                    RuntimeWarning,
+                )
+
+        xy_points_original = np.concatenate(
+            (xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1
+        )
+        xpts, ypts = _adjust_for_anisotropy(
+            np.vstack((xpts, ypts)).T,
+            [self.XCENTER, self.YCENTER],
+            [self.anisotropy_scaling],
+            [self.anisotropy_angle],
+        ).T
+        xy_points = np.concatenate((xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1)
+        xy_data = np.concatenate(
+            (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
+        )
+
+        if style != "masked":
+            mask = np.zeros(npt, dtype="bool")
+
+        bd = cdist(xy_points, xy_data, "euclidean")
+        if backend == "vectorized":
+            zvalues, sigmasq = self._exec_vector(
+                a,
+                bd,
+                xy_points,
+                xy_points_original,
+                mask,
+                n_withdrifts,
+                spec_drift_grids,
+            )
+        elif backend == "loop":
+            zvalues, sigmasq = self._exec_loop(
+                a,
+                bd,
+                xy_points,
+                xy_points_original,
+                mask,
+                n_withdrifts,
+                spec_drift_grids,
+            )
+        else:
+            raise ValueError(
+                "Specified backend {} is not supported "
+                "for 2D universal kriging.".format(backend)
+            )
+
+        if style == "masked":
+            zvalues = np.ma.array(zvalues, mask=mask)
+            sigmasq = np.ma.array(sigmasq, mask=mask)
+
+        if style in ["masked", "grid"]:
+            zvalues = zvalues.reshape((ny, nx))
+            sigmasq = sigmasq.reshape((ny, nx))
+
+        return zvalues, sigmasq
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 9b67519..d25b2ca 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -854,7 +854,7 @@ class UniversalKriging3D:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
-- 
2.43.0


From da6922f24f6b5c6796d5c677c06bef6976293901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 02/53] fix: loop backend failed when evaluating exactly at a
 point_log drift location

---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index f6b3602..3a4c81f 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1056,8 +1056,8 @@ class UniversalKriging:
                             + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                         )
                     )
-                    if np.any(np.isinf(log_dist)):
-                        log_dist[np.isinf(log_dist)] = -100.0
+                    if np.isinf(log_dist):
+                        log_dist = -100.0
                     b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
                     i += 1
             if self.external_Z_drift:
-- 
2.43.0


From 3f0c16c8bbcdf97cea2efecc94bdd97a5ee63f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 03/53] fix: update point_log drift locations when
 update_variogram_model changes anisotropy

---
 src/pykrige/uk.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 3a4c81f..214325b 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -448,14 +448,8 @@ class UniversalKriging:
                 )
             self.point_log_drift = True
             point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
-            self.point_log_array = np.zeros(point_log.shape)
-            self.point_log_array[:, 2] = point_log[:, 2]
-            self.point_log_array[:, :2] = _adjust_for_anisotropy(
-                np.vstack((point_log[:, 0], point_log[:, 1])).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
-            )
+            self.point_log_orig = point_log
+            self._adjust_point_log()
             if self.verbose:
                 print(
                     "Implementing external point-logarithmic drift; "
@@ -509,6 +503,17 @@ class UniversalKriging:
         else:
             self.functional_drift = False
 
+    def _adjust_point_log(self):
+        """Transforms the point-log drift locations into the adjusted frame."""
+        self.point_log_array = np.zeros(self.point_log_orig.shape)
+        self.point_log_array[:, 2] = self.point_log_orig[:, 2]
+        self.point_log_array[:, :2] = _adjust_for_anisotropy(
+            np.vstack((self.point_log_orig[:, 0], self.point_log_orig[:, 1])).T,
+            [self.XCENTER, self.YCENTER],
+            [self.anisotropy_scaling],
+            [self.anisotropy_angle],
+        )
+
     def _calculate_data_point_zscalars(self, x, y, type_="array"):
         """Determines the Z-scalar values at the specified coordinates
         for use when setting up the kriging matrix. Uses bilinear
@@ -721,6 +726,8 @@ class UniversalKriging:
                 [self.anisotropy_scaling],
                 [self.anisotropy_angle],
             ).T
+            if self.point_log_drift:
+                self._adjust_point_log()
 
         if self.verbose:
             print("Updating variogram mode...")
-- 
2.43.0


From 4945c4e2e8595d431f0ba3f1e58cd92e2535e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 04/53] fix: external drift grids with descending coordinates
 were interpolated wrongly

---
 src/pykrige/uk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 214325b..acb6647 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -432,6 +432,12 @@ class UniversalKriging:
                 self.external_Z_array = np.array(external_drift)
             self.external_Z_array_x = np.array(external_drift_x).flatten()
             self.external_Z_array_y = np.array(external_drift_y).flatten()
+            # the bilinear interpolation needs ascending grid coordinates
+            order_x = np.argsort(self.external_Z_array_x)
+            order_y = np.argsort(self.external_Z_array_y)
+            self.external_Z_array_x = self.external_Z_array_x[order_x]
+            self.external_Z_array_y = self.external_Z_array_y[order_y]
+            self.external_Z_array = self.external_Z_array[order_y][:, order_x]
             self.z_scalars = self._calculate_data_point_zscalars(
                 self.X_ORIG, self.Y_ORIG
             )
-- 
2.43.0


From 0b174ab75b1bf64479465efaa3e3004846457d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 05/53] fix: n_closest_points larger than the number of data
 points broke the moving window

The C backend wrote past the end of its buffers, the loop backend raised.
---
 src/pykrige/ok.py   | 2043 ++++++++++++++++++++++---------------------
 src/pykrige/ok3d.py |    2 +
 2 files changed, 1025 insertions(+), 1020 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 2eb0a7a..d92a0a2 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -1,1020 +1,1023 @@
-# coding: utf-8
-"""
-PyKrige
-=======
-
-Code by Benjamin S. Murphy and the PyKrige Developers
-bscott.murphy@gmail.com
-
-Summary
--------
-Contains class OrdinaryKriging, which provides easy access to
-2D Ordinary Kriging.
-
-References
-----------
-.. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
-    Hydrogeology, (Cambridge University Press, 1997) 272 p.
-.. [2] N. Cressie, Statistics for spatial data,
-   (Wiley Series in Probability and Statistics, 1993) 137 p.
-
-Copyright (c) 2015-2020, PyKrige Developers
-"""
-
-import warnings
-
-import numpy as np
-import scipy.linalg
-from scipy.spatial.distance import cdist
-
-from . import core, variogram_models
-from .compat_gstools import validate_gstools
-from .core import (
-    P_INV,
-    _adjust_for_anisotropy,
-    _find_statistics,
-    _initialize_variogram_model,
-    _make_variogram_parameter_list,
-)
-
-
-class OrdinaryKriging:
-    r"""Convenience class for easy access to 2D Ordinary Kriging.
-
-    Parameters
-    ----------
-    x : array_like
-        X-coordinates of data points.
-    y : array_like
-        Y-coordinates of data points.
-    z : array-like
-        Values at data points.
-    variogram_model : str or GSTools CovModel, optional
-        Specifies which variogram model to use; may be one of the following:
-        linear, power, gaussian, spherical, exponential, hole-effect.
-        Default is linear variogram model. To utilize a custom variogram model,
-        specify 'custom'; you must also provide variogram_parameters and
-        variogram_function. Note that the hole-effect model is only technically
-        correct for one-dimensional problems.
-        You can also use a
-        `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
-    variogram_parameters : list or dict, optional
-        Parameters that define the specified variogram model. If not provided,
-        parameters will be automatically calculated using a "soft" L1 norm
-        minimization scheme. For variogram model parameters provided in a dict,
-        the required dict keys vary according to the specified variogram
-        model: ::
-
-           # linear
-               {'slope': slope, 'nugget': nugget}
-           # power
-               {'scale': scale, 'exponent': exponent, 'nugget': nugget}
-           # gaussian, spherical, exponential and hole-effect:
-               {'sill': s, 'range': r, 'nugget': n}
-               # OR
-               {'psill': p, 'range': r, 'nugget': n}
-
-        Note that either the full sill or the partial sill
-        (psill = sill - nugget) can be specified in the dict.
-        For variogram model parameters provided in a list, the entries
-        must be as follows: ::
-
-           # linear
-               [slope, nugget]
-           # power
-               [scale, exponent, nugget]
-           # gaussian, spherical, exponential and hole-effect:
-               [sill, range, nugget]
-
-        Note that the full sill (NOT the partial sill) must be specified
-        in the list format.
-        For a custom variogram model, the parameters are required, as custom
-        variogram models will not automatically be fit to the data.
-        Furthermore, the parameters must be specified in list format, in the
-        order in which they are used in the callable function (see
-        variogram_function for more information). The code does not check
-        that the provided list contains the appropriate number of parameters
-        for the custom variogram model, so an incorrect parameter list in
-        such a case will probably trigger an esoteric exception someplace
-        deep in the code.
-        NOTE that, while the list format expects the full sill, the code
-        itself works internally with the partial sill.
-    variogram_function : callable, optional
-        A callable function that must be provided if variogram_model is
-        specified as 'custom'. The function must take only two arguments:
-        first, a list of parameters for the variogram model; second, the
-        distances at which to calculate the variogram model. The list
-        provided in variogram_parameters will be passed to the function
-        as the first argument.
-    nlags : int, optional
-        Number of averaging bins for the semivariogram. Default is 6.
-    weight : bool, optional
-        Flag that specifies if semivariance at smaller lags should be weighted
-        more heavily when automatically calculating variogram model.
-        The routine is currently hard-coded such that the weights are
-        calculated from a logistic function, so weights at small lags are ~1
-        and weights at the longest lags are ~0; the center of the logistic
-        weighting is hard-coded to be at 70% of the distance from the shortest
-        lag to the largest lag. Setting this parameter to True indicates that
-        weights will be applied. Default is False. (Kitanidis suggests that the
-        values at smaller lags are more important in fitting a variogram model,
-        so the option is provided to enable such weighting.)
-    anisotropy_scaling : float, optional
-        Scalar stretching value to take into account anisotropy.
-        Default is 1 (effectively no stretching).
-        Scaling is applied in the y-direction in the rotated data frame
-        (i.e., after adjusting for the anisotropy_angle, if anisotropy_angle
-        is not 0). This parameter has no effect if coordinate_types is
-        set to 'geographic'.
-    anisotropy_angle : float, optional
-        CCW angle (in degrees) by which to rotate coordinate system in
-        order to take into account anisotropy. Default is 0 (no rotation).
-        Note that the coordinate system is rotated. This parameter has
-        no effect if coordinate_types is set to 'geographic'.
-    verbose : bool, optional
-        Enables program text output to monitor kriging process.
-        Default is False (off).
-    enable_plotting : bool, optional
-        Enables plotting to display variogram. Default is False (off).
-    enable_statistics : bool, optional
-        Default is False
-    coordinates_type : str, optional
-        One of 'euclidean' or 'geographic'. Determines if the x and y
-        coordinates are interpreted as on a plane ('euclidean') or as
-        coordinates on a sphere ('geographic'). In case of geographic
-        coordinates, x is interpreted as longitude and y as latitude
-        coordinates, both given in degree. Longitudes are expected in
-        [0, 360] and latitudes in [-90, 90]. Default is 'euclidean'.
-    exact_values : bool, optional
-        If True, interpolation provides input values at input locations.
-        If False, interpolation accounts for variance/nugget within input
-        values at input locations and does not behave as an
-        exact-interpolator [2]. Note that this only has an effect if
-        there is variance/nugget present within the input data since it is
-        interpreted as measurement error. If the nugget is zero, the kriged
-        field will behave as an exact interpolator.
-    pseudo_inv : :class:`bool`, optional
-        Whether the kriging system is solved with the pseudo inverted
-        kriging matrix. If `True`, this leads to more numerical stability
-        and redundant points are averaged. But it can take more time.
-        Default: False
-    pseudo_inv_type : :class:`str`, optional
-        Here you can select the algorithm to compute the pseudo-inverse matrix:
-
-            * `"pinv"`: use `pinv` from `scipy` which uses `lstsq`
-            * `"pinvh"`: use `pinvh` from `scipy` which uses eigen-values
-
-        Default: `"pinv"`
-
-    References
-    ----------
-    .. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
-       Hydrogeology, (Cambridge University Press, 1997) 272 p.
-    .. [2] N. Cressie, Statistics for spatial data,
-       (Wiley Series in Probability and Statistics, 1993) 137 p.
-    """
-
-    eps = 1.0e-10  # Cutoff for comparison to zero
-    variogram_dict = {
-        "linear": variogram_models.linear_variogram_model,
-        "power": variogram_models.power_variogram_model,
-        "gaussian": variogram_models.gaussian_variogram_model,
-        "spherical": variogram_models.spherical_variogram_model,
-        "exponential": variogram_models.exponential_variogram_model,
-        "hole-effect": variogram_models.hole_effect_variogram_model,
-    }
-
-    def __init__(
-        self,
-        x,
-        y,
-        z,
-        variogram_model="linear",
-        variogram_parameters=None,
-        variogram_function=None,
-        nlags=6,
-        weight=False,
-        anisotropy_scaling=1.0,
-        anisotropy_angle=0.0,
-        verbose=False,
-        enable_plotting=False,
-        enable_statistics=False,
-        coordinates_type="euclidean",
-        exact_values=True,
-        pseudo_inv=False,
-        pseudo_inv_type="pinv",
-    ):
-        # config the pseudo inverse
-        self.pseudo_inv = bool(pseudo_inv)
-        self.pseudo_inv_type = str(pseudo_inv_type)
-        if self.pseudo_inv_type not in P_INV:
-            raise ValueError("pseudo inv type not valid: " + str(pseudo_inv_type))
-
-        # set up variogram model and parameters...
-        self.variogram_model = variogram_model
-        self.model = None
-
-        if not isinstance(exact_values, bool):
-            raise ValueError("exact_values has to be boolean True or False")
-        self.exact_values = exact_values
-
-        self.coordinates_type = coordinates_type
-
-        # check if a GSTools covariance model is given
-        if hasattr(self.variogram_model, "pykrige_kwargs"):
-            # save the model in the class
-            self.model = self.variogram_model
-            validate_gstools(self.model)
-            if self.model.field_dim == 3:
-                raise ValueError("GSTools: model dim is not 1 or 2")
-            # check if coordinate types match
-            if self.model.latlon and (self.coordinates_type == "euclidean"):
-                raise ValueError(
-                    "GSTools: latlon models require geographic coordinates"
-                )
-            self.variogram_model = "custom"
-            variogram_function = self.model.pykrige_vario
-            variogram_parameters = []
-            anisotropy_scaling = self.model.pykrige_anis
-            anisotropy_angle = self.model.pykrige_angle
-        if (
-            self.variogram_model not in self.variogram_dict.keys()
-            and self.variogram_model != "custom"
-        ):
-            raise ValueError(
-                "Specified variogram model '%s' is not supported." % variogram_model
-            )
-        elif self.variogram_model == "custom":
-            if variogram_function is None or not callable(variogram_function):
-                raise ValueError(
-                    "Must specify callable function for custom variogram model."
-                )
-            else:
-                self.variogram_function = variogram_function
-        else:
-            self.variogram_function = self.variogram_dict[self.variogram_model]
-
-        # Code assumes 1D input arrays of floats. Ensures that any extraneous
-        # dimensions don't get in the way. Copies are created to avoid any
-        # problems with referencing the original passed arguments.
-        # Also, values are forced to be float... in the future, might be worth
-        # developing complex-number kriging (useful for vector field kriging)
-        self.X_ORIG = np.atleast_1d(
-            np.squeeze(np.array(x, copy=True, dtype=np.float64))
-        )
-        self.Y_ORIG = np.atleast_1d(
-            np.squeeze(np.array(y, copy=True, dtype=np.float64))
-        )
-        self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))
-
-        self.verbose = verbose
-        self.enable_plotting = enable_plotting
-        if self.enable_plotting and self.verbose:
-            print("Plotting Enabled\n")
-
-        # adjust for anisotropy... only implemented for euclidean (rectangular)
-        # coordinates, as anisotropy is ambiguous for geographic coordinates...
-        if self.coordinates_type == "euclidean":
-            self.XCENTER = (np.amax(self.X_ORIG) + np.amin(self.X_ORIG)) / 2.0
-            self.YCENTER = (np.amax(self.Y_ORIG) + np.amin(self.Y_ORIG)) / 2.0
-            self.anisotropy_scaling = anisotropy_scaling
-            self.anisotropy_angle = anisotropy_angle
-            if self.verbose:
-                print("Adjusting data for anisotropy...")
-            self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
-                np.vstack((self.X_ORIG, self.Y_ORIG)).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
-            ).T
-        elif self.coordinates_type == "geographic":
-            # Leave everything as is in geographic case.
-            # May be open to discussion?
-            if anisotropy_scaling != 1.0:
-                warnings.warn(
-                    "Anisotropy is not compatible with geographic "
-                    "coordinates. Ignoring user set anisotropy.",
-                    UserWarning,
-                )
-            self.XCENTER = 0.0
-            self.YCENTER = 0.0
-            self.anisotropy_scaling = 1.0
-            self.anisotropy_angle = 0.0
-            self.X_ADJUSTED = self.X_ORIG
-            self.Y_ADJUSTED = self.Y_ORIG
-        else:
-            raise ValueError(
-                "Only 'euclidean' and 'geographic' are valid "
-                "values for coordinates-keyword."
-            )
-
-        if self.verbose:
-            print("Initializing variogram model...")
-
-        vp_temp = _make_variogram_parameter_list(
-            self.variogram_model, variogram_parameters
-        )
-        (
-            self.lags,
-            self.semivariance,
-            self.variogram_model_parameters,
-        ) = _initialize_variogram_model(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_model,
-            vp_temp,
-            self.variogram_function,
-            nlags,
-            weight,
-            self.coordinates_type,
-        )
-
-        if self.verbose:
-            print("Coordinates type: '%s'" % self.coordinates_type, "\n")
-            if self.variogram_model == "linear":
-                print("Using '%s' Variogram Model" % "linear")
-                print("Slope:", self.variogram_model_parameters[0])
-                print("Nugget:", self.variogram_model_parameters[1], "\n")
-            elif self.variogram_model == "power":
-                print("Using '%s' Variogram Model" % "power")
-                print("Scale:", self.variogram_model_parameters[0])
-                print("Exponent:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-            elif self.variogram_model == "custom":
-                print("Using Custom Variogram Model")
-            else:
-                print("Using '%s' Variogram Model" % self.variogram_model)
-                print("Partial Sill:", self.variogram_model_parameters[0])
-                print(
-                    "Full Sill:",
-                    self.variogram_model_parameters[0]
-                    + self.variogram_model_parameters[2],
-                )
-                print("Range:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-        if self.enable_plotting:
-            self.display_variogram_model()
-
-        if self.verbose:
-            print("Calculating statistics on variogram model fit...")
-        if enable_statistics:
-            self.delta, self.sigma, self.epsilon = _find_statistics(
-                np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-                self.Z,
-                self.variogram_function,
-                self.variogram_model_parameters,
-                self.coordinates_type,
-                self.pseudo_inv,
-            )
-            self.Q1 = core.calcQ1(self.epsilon)
-            self.Q2 = core.calcQ2(self.epsilon)
-            self.cR = core.calc_cR(self.Q2, self.sigma)
-            if self.verbose:
-                print("Q1 =", self.Q1)
-                print("Q2 =", self.Q2)
-                print("cR =", self.cR, "\n")
-        else:
-            self.delta, self.sigma, self.epsilon, self.Q1, self.Q2, self.cR = [None] * 6
-
-    def update_variogram_model(
-        self,
-        variogram_model,
-        variogram_parameters=None,
-        variogram_function=None,
-        nlags=6,
-        weight=False,
-        anisotropy_scaling=1.0,
-        anisotropy_angle=0.0,
-    ):
-        """Allows user to update variogram type and/or
-        variogram model parameters.
-
-        Parameters
-        __________
-        variogram_model : str or GSTools CovModel
-            May be any of the variogram models listed
-            above. May also be 'custom', in which case variogram_parameters
-            and variogram_function must be specified.
-            You can also use a
-            `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
-        variogram_parameters : list or dict, optional
-            List or dict of
-            variogram model parameters, as explained above. If not provided,
-            a best fit model will be calculated as described above.
-        variogram_function : callable, optional
-            A callable function that must
-            be provided if variogram_model is specified as 'custom'.
-            See above for more information.
-        nlags : int, optional
-            Number of averaging bins for the semivariogram.
-            Default is 6.
-        weight : boolean, optional
-            Flag that specifies if semivariance at
-            smaller lags should be weighted more heavily when automatically
-            calculating the variogram model. See above for more information.
-            True indicates that weights will be applied. Default is False.
-        anisotropy_scaling : float, optional
-            Scalar stretching value to
-            take into account anisotropy. Default is 1 (effectively no
-            stretching). Scaling is applied in the y-direction.
-        anisotropy_angle : float, optional
-            CCW angle (in degrees) by
-            which to rotate coordinate system in order to take into
-            account anisotropy. Default is 0 (no rotation).
-        """
-
-        # set up variogram model and parameters...
-        self.variogram_model = variogram_model
-        self.model = None
-        # check if a GSTools covariance model is given
-        if hasattr(self.variogram_model, "pykrige_kwargs"):
-            # save the model in the class
-            self.model = self.variogram_model
-            validate_gstools(self.model)
-            if self.model.field_dim == 3:
-                raise ValueError("GSTools: model dim is not 1 or 2")
-            # check if coordinate types match
-            if self.model.latlon and (self.coordinates_type == "euclidean"):
-                raise ValueError(
-                    "GSTools: latlon models require geographic coordinates"
-                )
-            self.variogram_model = "custom"
-            variogram_function = self.model.pykrige_vario
-            variogram_parameters = []
-            anisotropy_scaling = self.model.pykrige_anis
-            anisotropy_angle = self.model.pykrige_angle
-        if (
-            self.variogram_model not in self.variogram_dict.keys()
-            and self.variogram_model != "custom"
-        ):
-            raise ValueError(
-                "Specified variogram model '%s' is not supported." % variogram_model
-            )
-        elif self.variogram_model == "custom":
-            if variogram_function is None or not callable(variogram_function):
-                raise ValueError(
-                    "Must specify callable function for custom variogram model."
-                )
-            else:
-                self.variogram_function = variogram_function
-        else:
-            self.variogram_function = self.variogram_dict[self.variogram_model]
-
-        if (
-            anisotropy_scaling != self.anisotropy_scaling
-            or anisotropy_angle != self.anisotropy_angle
-        ):
-            if self.coordinates_type == "euclidean":
-                if self.verbose:
-                    print("Adjusting data for anisotropy...")
-                self.anisotropy_scaling = anisotropy_scaling
-                self.anisotropy_angle = anisotropy_angle
-                self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
-                    np.vstack((self.X_ORIG, self.Y_ORIG)).T,
-                    [self.XCENTER, self.YCENTER],
-                    [self.anisotropy_scaling],
-                    [self.anisotropy_angle],
-                ).T
-            elif self.coordinates_type == "geographic":
-                if anisotropy_scaling != 1.0:
-                    warnings.warn(
-                        "Anisotropy is not compatible with geographic"
-                        " coordinates. Ignoring user set anisotropy.",
-                        UserWarning,
-                    )
-                self.anisotropy_scaling = 1.0
-                self.anisotropy_angle = 0.0
-                self.X_ADJUSTED = self.X_ORIG
-                self.Y_ADJUSTED = self.Y_ORIG
-        if self.verbose:
-            print("Updating variogram mode...")
-
-        # See note above about the 'use_psill' kwarg...
-        vp_temp = _make_variogram_parameter_list(
-            self.variogram_model, variogram_parameters
-        )
-        (
-            self.lags,
-            self.semivariance,
-            self.variogram_model_parameters,
-        ) = _initialize_variogram_model(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_model,
-            vp_temp,
-            self.variogram_function,
-            nlags,
-            weight,
-            self.coordinates_type,
-        )
-
-        if self.verbose:
-            print("Coordinates type: '%s'" % self.coordinates_type, "\n")
-            if self.variogram_model == "linear":
-                print("Using '%s' Variogram Model" % "linear")
-                print("Slope:", self.variogram_model_parameters[0])
-                print("Nugget:", self.variogram_model_parameters[1], "\n")
-            elif self.variogram_model == "power":
-                print("Using '%s' Variogram Model" % "power")
-                print("Scale:", self.variogram_model_parameters[0])
-                print("Exponent:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-            elif self.variogram_model == "custom":
-                print("Using Custom Variogram Model")
-            else:
-                print("Using '%s' Variogram Model" % self.variogram_model)
-                print("Partial Sill:", self.variogram_model_parameters[0])
-                print(
-                    "Full Sill:",
-                    self.variogram_model_parameters[0]
-                    + self.variogram_model_parameters[2],
-                )
-                print("Range:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-        if self.enable_plotting:
-            self.display_variogram_model()
-
-        if self.verbose:
-            print("Calculating statistics on variogram model fit...")
-        self.delta, self.sigma, self.epsilon = _find_statistics(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_function,
-            self.variogram_model_parameters,
-            self.coordinates_type,
-            self.pseudo_inv,
-        )
-        self.Q1 = core.calcQ1(self.epsilon)
-        self.Q2 = core.calcQ2(self.epsilon)
-        self.cR = core.calc_cR(self.Q2, self.sigma)
-        if self.verbose:
-            print("Q1 =", self.Q1)
-            print("Q2 =", self.Q2)
-            print("cR =", self.cR, "\n")
-
-    def display_variogram_model(self):
-        """Displays variogram model with the actual binned data."""
-        import matplotlib.pyplot as plt
-
-        fig = plt.figure()
-        ax = fig.add_subplot(111)
-        ax.plot(self.lags, self.semivariance, "r*")
-        ax.plot(
-            self.lags,
-            self.variogram_function(self.variogram_model_parameters, self.lags),
-            "k-",
-        )
-        plt.show()
-
-    def get_variogram_points(self):
-        """Returns both the lags and the variogram function evaluated at each
-        of them.
-
-        The evaluation of the variogram function and the lags are produced
-        internally. This method is convenient when the user wants to access to
-        the lags and the resulting variogram (according to the model provided)
-        for further analysis.
-
-        Returns
-        -------
-        (tuple) tuple containing:
-            lags (array) - the lags at which the variogram was evaluated
-            variogram (array) - the variogram function evaluated at the lags
-        """
-        return (
-            self.lags,
-            self.variogram_function(self.variogram_model_parameters, self.lags),
-        )
-
-    def switch_verbose(self):
-        """Allows user to switch code talk-back on/off. Takes no arguments."""
-        self.verbose = not self.verbose
-
-    def switch_plotting(self):
-        """Allows user to switch plot display on/off. Takes no arguments."""
-        self.enable_plotting = not self.enable_plotting
-
-    def get_epsilon_residuals(self):
-        """Returns the epsilon residuals for the variogram fit."""
-        return self.epsilon
-
-    def plot_epsilon_residuals(self):
-        """Plots the epsilon residuals for the variogram fit."""
-        import matplotlib.pyplot as plt
-
-        fig = plt.figure()
-        ax = fig.add_subplot(111)
-        ax.scatter(range(self.epsilon.size), self.epsilon, c="k", marker="*")
-        ax.axhline(y=0.0)
-        plt.show()
-
-    def get_statistics(self):
-        """Returns the Q1, Q2, and cR statistics for the variogram fit
-        (in that order). No arguments.
-        """
-        return self.Q1, self.Q2, self.cR
-
-    def print_statistics(self):
-        """Prints out the Q1, Q2, and cR statistics for the variogram fit.
-        NOTE that ideally Q1 is close to zero, Q2 is close to 1,
-        and cR is as small as possible.
-        """
-        print("Q1 =", self.Q1)
-        print("Q2 =", self.Q2)
-        print("cR =", self.cR)
-
-    def _get_kriging_matrix(self, n):
-        """Assembles the kriging matrix."""
-
-        if self.coordinates_type == "euclidean":
-            xy = np.concatenate(
-                (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
-            )
-            d = cdist(xy, xy, "euclidean")
-        elif self.coordinates_type == "geographic":
-            d = core.great_circle_distance(
-                self.X_ADJUSTED[:, np.newaxis],
-                self.Y_ADJUSTED[:, np.newaxis],
-                self.X_ADJUSTED,
-                self.Y_ADJUSTED,
-            )
-        a = np.zeros((n + 1, n + 1))
-        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)
-
-        np.fill_diagonal(a, 0.0)
-        a[n, :] = 1.0
-        a[:, n] = 1.0
-        a[n, n] = 0.0
-        return a
-
-    def _exec_vector(self, a, bd, mask):
-        """Solves the kriging system as a vectorized operation. This method
-        can take a lot of memory for large grids and/or large datasets."""
-
-        npt = bd.shape[0]
-        n = self.X_ADJUSTED.shape[0]
-        zero_index = None
-        zero_value = False
-
-        # use the desired method to invert the kriging matrix
-        if self.pseudo_inv:
-            a_inv = P_INV[self.pseudo_inv_type](a)
-        else:
-            a_inv = scipy.linalg.inv(a)
-
-        if np.any(np.absolute(bd) <= self.eps):
-            zero_value = True
-            zero_index = np.where(np.absolute(bd) <= self.eps)
-
-        b = np.zeros((npt, n + 1, 1))
-        b[:, :n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
-        if zero_value and self.exact_values:
-            b[zero_index[0], zero_index[1], 0] = 0.0
-        b[:, n, 0] = 1.0
-
-        if (~mask).any():
-            mask_b = np.repeat(mask[:, np.newaxis, np.newaxis], n + 1, axis=1)
-            b = np.ma.array(b, mask=mask_b)
-
-        x = np.dot(a_inv, b.reshape((npt, n + 1)).T).reshape((1, n + 1, npt)).T
-        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)
-        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)
-
-        return zvalues, sigmasq
-
-    def _exec_loop(self, a, bd_all, mask):
-        """Solves the kriging system by looping over all specified points.
-        Less memory-intensive, but involves a Python-level loop."""
-
-        npt = bd_all.shape[0]
-        n = self.X_ADJUSTED.shape[0]
-        zvalues = np.zeros(npt)
-        sigmasq = np.zeros(npt)
-
-        # use the desired method to invert the kriging matrix
-        if self.pseudo_inv:
-            a_inv = P_INV[self.pseudo_inv_type](a)
-        else:
-            a_inv = scipy.linalg.inv(a)
-
-        for j in np.nonzero(~mask)[
-            0
-        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
-            bd = bd_all[j]  # otherwise it takes the non-masked elements.
-            if np.any(np.absolute(bd) <= self.eps):
-                zero_value = True
-                zero_index = np.where(np.absolute(bd) <= self.eps)
-            else:
-                zero_index = None
-                zero_value = False
-
-            b = np.zeros((n + 1, 1))
-            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
-            if zero_value and self.exact_values:
-                b[zero_index[0], 0] = 0.0
-            b[n, 0] = 1.0
-            x = np.dot(a_inv, b)
-            zvalues[j] = np.sum(x[:n, 0] * self.Z)
-            sigmasq[j] = np.sum(x[:, 0] * -b[:, 0])
-
-        return zvalues, sigmasq
-
-    def _exec_loop_moving_window(self, a_all, bd_all, mask, bd_idx):
-        """Solves the kriging system by looping over all specified points.
-        Less memory-intensive, but involves a Python-level loop."""
-        import scipy.linalg.lapack
-
-        npt = bd_all.shape[0]
-        n = bd_idx.shape[1]
-        zvalues = np.zeros(npt)
-        sigmasq = np.zeros(npt)
-
-        for i in np.nonzero(~mask)[
-            0
-        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
-            b_selector = bd_idx[i]  # otherwise it takes the non-masked elements.
-            bd = bd_all[i]
-
-            a_selector = np.concatenate((b_selector, np.array([a_all.shape[0] - 1])))
-            a = a_all[a_selector[:, None], a_selector]
-
-            if np.any(np.absolute(bd) <= self.eps):
-                zero_value = True
-                zero_index = np.where(np.absolute(bd) <= self.eps)
-            else:
-                zero_index = None
-                zero_value = False
-            b = np.zeros((n + 1, 1))
-            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
-            if zero_value and self.exact_values:
-                b[zero_index[0], 0] = 0.0
-            b[n, 0] = 1.0
-
-            x = scipy.linalg.solve(a, b)
-
-            zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
-            sigmasq[i] = -x[:, 0].dot(b[:, 0])
-
-        return zvalues, sigmasq
-
-    def execute(
-        self,
-        style,
-        xpoints,
-        ypoints,
-        mask=None,
-        backend="vectorized",
-        n_closest_points=None,
-    ):
-        """Calculates a kriged grid and the associated variance.
-
-        Parameters
-        ----------
-        style : str
-            Specifies how to treat input kriging points. Specifying 'grid'
-            treats xpoints and ypoints as two arrays of x and y coordinates
-            that define a rectangular grid. Specifying 'points' treats
-            xpoints and ypoints as two arrays that provide coordinate pairs
-            at which to solve the kriging system. Specifying 'masked'
-            treats xpoints and ypoints as two arrays of x and y coordinates
-            that define a rectangular grid and uses mask to only evaluate
-            specific points in the grid.
-        xpoints : array_like, shape (N,) or (N, 1)
-            If style is specific as 'grid' or 'masked',
-            x-coordinates of MxN grid. If style is specified as 'points',
-            x-coordinates of specific points at which to solve
-            kriging system.
-        ypoints : array_like, shape (M,) or (M, 1)
-            If style is specified as 'grid' or 'masked',
-            y-coordinates of MxN grid. If style is specified as 'points',
-            y-coordinates of specific points at which to solve kriging
-            system. Note that in this case, xpoints and ypoints must have
-            the same dimensions (i.e., M = N).
-        mask : bool, array_like, shape (M, N), optional
-            Specifies the points in the rectangular grid defined
-            by xpoints and ypoints that are to be excluded in the
-            kriging calculations. Must be provided if style is specified
-            as 'masked'. False indicates that the point should not be
-            masked, so the kriging system will be solved at the point.
-            True indicates that the point should be masked, so the kriging
-            system should will not be solved at the point.
-        backend : str, optional
-            Specifies which approach to use in kriging.
-            Specifying 'vectorized' will solve the entire kriging problem
-            at once in a vectorized operation. This approach is faster but
-            also can consume a significant amount of memory for large grids
-            and/or large datasets. Specifying 'loop' will loop through each
-            point at which the kriging system is to be solved.
-            This approach is slower but also less memory-intensive.
-            Specifying 'C' will utilize a loop in Cython.
-            Default is 'vectorized'.
-        n_closest_points : int, optional
-            For kriging with a moving window, specifies the number of
-            nearby points to use in the calculation. This can speed up the
-            calculation for large datasets, but should be used
-            with caution. As Kitanidis notes, kriging with a moving window
-            can produce unexpected oddities if the variogram model
-            is not carefully chosen.
-
-        Returns
-        -------
-        zvalues : ndarray, shape (M, N) or (N, 1)
-            Z-values of specified grid or at the specified set of points.
-            If style was specified as 'masked', zvalues will
-            be a numpy masked array.
-        sigmasq : ndarray, shape (M, N) or (N, 1)
-            Variance at specified grid points or at the specified
-            set of points. If style was specified as 'masked', sigmasq
-            will be a numpy masked array.
-        """
-
-        if self.verbose:
-            print("Executing Ordinary Kriging...\n")
-
-        if style != "grid" and style != "masked" and style != "points":
-            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
-
-        if n_closest_points is not None and n_closest_points <= 1:
-            # If this is not checked, nondescriptive errors emerge
-            # later in the code.
-            raise ValueError("n_closest_points has to be at least two!")
-
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        n = self.X_ADJUSTED.shape[0]
-        nx = xpts.size
-        ny = ypts.size
-        a = self._get_kriging_matrix(n)
-
-        if style in ["grid", "masked"]:
-            if style == "masked":
-                if mask is None:
-                    raise IOError(
-                        "Must specify boolean masking array when style is 'masked'."
-                    )
-                if mask.shape[0] != ny or mask.shape[1] != nx:
-                    if mask.shape[0] == nx and mask.shape[1] == ny:
-                        mask = mask.T
-                    else:
-                        raise ValueError(
-                            "Mask dimensions do not match specified grid dimensions."
-                        )
-                mask = mask.flatten()
-            npt = ny * nx
-            grid_x, grid_y = np.meshgrid(xpts, ypts)
-            xpts = grid_x.flatten()
-            ypts = grid_y.flatten()
-
-        elif style == "points":
-            if xpts.size != ypts.size:
-                raise ValueError(
-                    "xpoints and ypoints must have "
-                    "same dimensions when treated as "
-                    "listing discrete points."
-                )
-            npt = nx
-        else:
-            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
-
-        if self.coordinates_type == "euclidean":
-            xpts, ypts = _adjust_for_anisotropy(
-                np.vstack((xpts, ypts)).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
-            ).T
-            # Prepare for cdist:
-            xy_data = np.concatenate(
-                (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
-            )
-            xy_points = np.concatenate(
-                (xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1
-            )
-        elif self.coordinates_type == "geographic":
-            # In spherical coordinates, we do not correct for anisotropy.
-            # Also, we don't use scipy.spatial.cdist, so we do not have to
-            # format the input data accordingly.
-            pass
-
-        if style != "masked":
-            mask = np.zeros(npt, dtype="bool")
-
-        c_pars = None
-        if backend == "C":
-            try:
-                from .lib.cok import _c_exec_loop, _c_exec_loop_moving_window
-            except ImportError:
-                print(
-                    "Warning: failed to load Cython extensions.\n"
-                    "   See https://github.com/GeoStat-Framework/PyKrige/issues/8 \n"
-                    "   Falling back to a pure python backend..."
-                )
-                backend = "loop"
-            except:
-                raise RuntimeError("Unknown error in trying to load Cython extension.")
-
-            c_pars = {
-                key: getattr(self, key)
-                for key in [
-                    "Z",
-                    "eps",
-                    "variogram_model_parameters",
-                    "variogram_function",
-                    "exact_values",
-                    "pseudo_inv",
-                    "pseudo_inv_type",
-                ]
-            }
-
-        if n_closest_points is not None:
-            if self.coordinates_type == "geographic":
-                # To make use of the KDTree, we have to convert the
-                # spherical coordinates into three dimensional Euclidean
-                # coordinates, since the standard KDTree cannot handle
-                # the periodicity.
-                # Do the conversion just for the step involving the KDTree:
-                lon_d = self.X_ADJUSTED[:, np.newaxis] * np.pi / 180.0
-                lat_d = self.Y_ADJUSTED[:, np.newaxis] * np.pi / 180.0
-                xy_data = np.concatenate(
-                    (
-                        np.cos(lon_d) * np.cos(lat_d),
-                        np.sin(lon_d) * np.cos(lat_d),
-                        np.sin(lat_d),
-                    ),
-                    axis=1,
-                )
-                lon_p = xpts[:, np.newaxis] * np.pi / 180.0
-                lat_p = ypts[:, np.newaxis] * np.pi / 180.0
-                xy_points = np.concatenate(
-                    (
-                        np.cos(lon_p) * np.cos(lat_p),
-                        np.sin(lon_p) * np.cos(lat_p),
-                        np.sin(lat_p),
-                    ),
-                    axis=1,
-                )
-
-            from scipy.spatial import cKDTree
-
-            tree = cKDTree(xy_data)
-            bd, bd_idx = tree.query(xy_points, k=n_closest_points, eps=0.0)
-
-            if self.coordinates_type == "geographic":
-                # Between the nearest neighbours from Euclidean search,
-                # calculate the great circle distance using the standard method:
-                x_points = np.tile(xpts[:, np.newaxis], (1, n_closest_points))
-                y_points = np.tile(ypts[:, np.newaxis], (1, n_closest_points))
-                bd = core.great_circle_distance(
-                    x_points, y_points, self.X_ADJUSTED[bd_idx], self.Y_ADJUSTED[bd_idx]
-                )
-
-            if backend == "loop":
-                zvalues, sigmasq = self._exec_loop_moving_window(a, bd, mask, bd_idx)
-            elif backend == "C":
-                zvalues, sigmasq = _c_exec_loop_moving_window(
-                    a,
-                    bd,
-                    mask.astype("int8"),
-                    bd_idx.astype("long"),
-                    self.X_ADJUSTED.shape[0],
-                    c_pars,
-                )
-            else:
-                raise ValueError(
-                    "Specified backend {} for a moving window "
-                    "is not supported.".format(backend)
-                )
-        else:
-            if self.coordinates_type == "euclidean":
-                bd = cdist(xy_points, xy_data, "euclidean")
-            elif self.coordinates_type == "geographic":
-                bd = core.great_circle_distance(
-                    xpts[:, np.newaxis],
-                    ypts[:, np.newaxis],
-                    self.X_ADJUSTED,
-                    self.Y_ADJUSTED,
-                )
-
-            if backend == "vectorized":
-                zvalues, sigmasq = self._exec_vector(a, bd, mask)
-            elif backend == "loop":
-                zvalues, sigmasq = self._exec_loop(a, bd, mask)
-            elif backend == "C":
-                zvalues, sigmasq = _c_exec_loop(
-                    a, bd, mask.astype("int8"), self.X_ADJUSTED.shape[0], c_pars
-                )
-            else:
-                raise ValueError(
-                    "Specified backend {} is not supported for "
-                    "2D ordinary kriging.".format(backend)
-                )
-
-        if style == "masked":
-            zvalues = np.ma.array(zvalues, mask=mask)
-            sigmasq = np.ma.array(sigmasq, mask=mask)
-
-        if style in ["masked", "grid"]:
-            zvalues = zvalues.reshape((ny, nx))
-            sigmasq = sigmasq.reshape((ny, nx))
-
-        return zvalues, sigmasq
+# coding: utf-8
+"""
+PyKrige
+=======
+
+Code by Benjamin S. Murphy and the PyKrige Developers
+bscott.murphy@gmail.com
+
+Summary
+-------
+Contains class OrdinaryKriging, which provides easy access to
+2D Ordinary Kriging.
+
+References
+----------
+.. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
+    Hydrogeology, (Cambridge University Press, 1997) 272 p.
+.. [2] N. Cressie, Statistics for spatial data,
+   (Wiley Series in Probability and Statistics, 1993) 137 p.
+
+Copyright (c) 2015-2020, PyKrige Developers
+"""
+
+import warnings
+
+import numpy as np
+import scipy.linalg
+from scipy.spatial.distance import cdist
+
+from . import core, variogram_models
+from .compat_gstools import validate_gstools
+from .core import (
+    P_INV,
+    _adjust_for_anisotropy,
+    _find_statistics,
+    _initialize_variogram_model,
+    _make_variogram_parameter_list,
+)
+
+
+class OrdinaryKriging:
+    r"""Convenience class for easy access to 2D Ordinary Kriging.
+
+    Parameters
+    ----------
+    x : array_like
+        X-coordinates of data points.
+    y : array_like
+        Y-coordinates of data points.
+    z : array-like
+        Values at data points.
+    variogram_model : str or GSTools CovModel, optional
+        Specifies which variogram model to use; may be one of the following:
+        linear, power, gaussian, spherical, exponential, hole-effect.
+        Default is linear variogram model. To utilize a custom variogram model,
+        specify 'custom'; you must also provide variogram_parameters and
+        variogram_function. Note that the hole-effect model is only technically
+        correct for one-dimensional problems.
+        You can also use a
+        `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
+    variogram_parameters : list or dict, optional
+        Parameters that define the specified variogram model. If not provided,
+        parameters will be automatically calculated using a "soft" L1 norm
+        minimization scheme. For variogram model parameters provided in a dict,
+        the required dict keys vary according to the specified variogram
+        model: ::
+
+           # linear
+               {'slope': slope, 'nugget': nugget}
+           # power
+               {'scale': scale, 'exponent': exponent, 'nugget': nugget}
+           # gaussian, spherical, exponential and hole-effect:
+               {'sill': s, 'range': r, 'nugget': n}
+               # OR
+               {'psill': p, 'range': r, 'nugget': n}
+
+        Note that either the full sill or the partial sill
+        (psill = sill - nugget) can be specified in the dict.
+        For variogram model parameters provided in a list, the entries
+        must be as follows: ::
+
+           # linear
+               [slope, nugget]
+           # power
+               [scale, exponent, nugget]
+           # gaussian, spherical, exponential and hole-effect:
+               [sill, range, nugget]
+
+        Note that the full sill (NOT the partial sill) must be specified
+        in the list format.
+        For a custom variogram model, the parameters are required, as custom
+        variogram models will not automatically be fit to the data.
+        Furthermore, the parameters must be specified in list format, in the
+        order in which they are used in the callable function (see
+        variogram_function for more information). The code does not check
+        that the provided list contains the appropriate number of parameters
+        for the custom variogram model, so an incorrect parameter list in
+        such a case will probably trigger an esoteric exception someplace
+        deep in the code.
+        NOTE that, while the list format expects the full sill, the code
+        itself works internally with the partial sill.
+    variogram_function : callable, optional
+        A callable function that must be provided if variogram_model is
+        specified as 'custom'. The function must take only two arguments:
+        first, a list of parameters for the variogram model; second, the
+        distances at which to calculate the variogram model. The list
+        provided in variogram_parameters will be passed to the function
+        as the first argument.
+    nlags : int, optional
+        Number of averaging bins for the semivariogram. Default is 6.
+    weight : bool, optional
+        Flag that specifies if semivariance at smaller lags should be weighted
+        more heavily when automatically calculating variogram model.
+        The routine is currently hard-coded such that the weights are
+        calculated from a logistic function, so weights at small lags are ~1
+        and weights at the longest lags are ~0; the center of the logistic
+        weighting is hard-coded to be at 70% of the distance from the shortest
+        lag to the largest lag. Setting this parameter to True indicates that
+        weights will be applied. Default is False. (Kitanidis suggests that the
+        values at smaller lags are more important in fitting a variogram model,
+        so the option is provided to enable such weighting.)
+    anisotropy_scaling : float, optional
+        Scalar stretching value to take into account anisotropy.
+        Default is 1 (effectively no stretching).
+        Scaling is applied in the y-direction in the rotated data frame
+        (i.e., after adjusting for the anisotropy_angle, if anisotropy_angle
+        is not 0). This parameter has no effect if coordinate_types is
+        set to 'geographic'.
+    anisotropy_angle : float, optional
+        CCW angle (in degrees) by which to rotate coordinate system in
+        order to take into account anisotropy. Default is 0 (no rotation).
+        Note that the coordinate system is rotated. This parameter has
+        no effect if coordinate_types is set to 'geographic'.
+    verbose : bool, optional
+        Enables program text output to monitor kriging process.
+        Default is False (off).
+    enable_plotting : bool, optional
+        Enables plotting to display variogram. Default is False (off).
+    enable_statistics : bool, optional
+        Default is False
+    coordinates_type : str, optional
+        One of 'euclidean' or 'geographic'. Determines if the x and y
+        coordinates are interpreted as on a plane ('euclidean') or as
+        coordinates on a sphere ('geographic'). In case of geographic
+        coordinates, x is interpreted as longitude and y as latitude
+        coordinates, both given in degree. Longitudes are expected in
+        [0, 360] and latitudes in [-90, 90]. Default is 'euclidean'.
+    exact_values : bool, optional
+        If True, interpolation provides input values at input locations.
+        If False, interpolation accounts for variance/nugget within input
+        values at input locations and does not behave as an
+        exact-interpolator [2]. Note that this only has an effect if
+        there is variance/nugget present within the input data since it is
+        interpreted as measurement error. If the nugget is zero, the kriged
+        field will behave as an exact interpolator.
+    pseudo_inv : :class:`bool`, optional
+        Whether the kriging system is solved with the pseudo inverted
+        kriging matrix. If `True`, this leads to more numerical stability
+        and redundant points are averaged. But it can take more time.
+        Default: False
+    pseudo_inv_type : :class:`str`, optional
+        Here you can select the algorithm to compute the pseudo-inverse matrix:
+
+            * `"pinv"`: use `pinv` from `scipy` which uses `lstsq`
+            * `"pinvh"`: use `pinvh` from `scipy` which uses eigen-values
+
+        Default: `"pinv"`
+
+    References
+    ----------
+    .. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
+       Hydrogeology, (Cambridge University Press, 1997) 272 p.
+    .. [2] N. Cressie, Statistics for spatial data,
+       (Wiley Series in Probability and Statistics, 1993) 137 p.
+    """
+
+    eps = 1.0e-10  # Cutoff for comparison to zero
+    variogram_dict = {
+        "linear": variogram_models.linear_variogram_model,
+        "power": variogram_models.power_variogram_model,
+        "gaussian": variogram_models.gaussian_variogram_model,
+        "spherical": variogram_models.spherical_variogram_model,
+        "exponential": variogram_models.exponential_variogram_model,
+        "hole-effect": variogram_models.hole_effect_variogram_model,
+    }
+
+    def __init__(
+        self,
+        x,
+        y,
+        z,
+        variogram_model="linear",
+        variogram_parameters=None,
+        variogram_function=None,
+        nlags=6,
+        weight=False,
+        anisotropy_scaling=1.0,
+        anisotropy_angle=0.0,
+        verbose=False,
+        enable_plotting=False,
+        enable_statistics=False,
+        coordinates_type="euclidean",
+        exact_values=True,
+        pseudo_inv=False,
+        pseudo_inv_type="pinv",
+    ):
+        # config the pseudo inverse
+        self.pseudo_inv = bool(pseudo_inv)
+        self.pseudo_inv_type = str(pseudo_inv_type)
+        if self.pseudo_inv_type not in P_INV:
+            raise ValueError("pseudo inv type not valid: " + str(pseudo_inv_type))
+
+        # set up variogram model and parameters...
+        self.variogram_model = variogram_model
+        self.model = None
+
+        if not isinstance(exact_values, bool):
+            raise ValueError("exact_values has to be boolean True or False")
+        self.exact_values = exact_values
+
+        self.coordinates_type = coordinates_type
+
+        # check if a GSTools covariance model is given
+        if hasattr(self.variogram_model, "pykrige_kwargs"):
+            # save the model in the class
+            self.model = self.variogram_model
+            validate_gstools(self.model)
+            if self.model.field_dim == 3:
+                raise ValueError("GSTools: model dim is not 1 or 2")
+            # check if coordinate types match
+            if self.model.latlon and (self.coordinates_type == "euclidean"):
+                raise ValueError(
+                    "GSTools: latlon models require geographic coordinates"
+                )
+            self.variogram_model = "custom"
+            variogram_function = self.model.pykrige_vario
+            variogram_parameters = []
+            anisotropy_scaling = self.model.pykrige_anis
+            anisotropy_angle = self.model.pykrige_angle
+        if (
+            self.variogram_model not in self.variogram_dict.keys()
+            and self.variogram_model != "custom"
+        ):
+            raise ValueError(
+                "Specified variogram model '%s' is not supported." % variogram_model
+            )
+        elif self.variogram_model == "custom":
+            if variogram_function is None or not callable(variogram_function):
+                raise ValueError(
+                    "Must specify callable function for custom variogram model."
+                )
+            else:
+                self.variogram_function = variogram_function
+        else:
+            self.variogram_function = self.variogram_dict[self.variogram_model]
+
+        # Code assumes 1D input arrays of floats. Ensures that any extraneous
+        # dimensions don't get in the way. Copies are created to avoid any
+        # problems with referencing the original passed arguments.
+        # Also, values are forced to be float... in the future, might be worth
+        # developing complex-number kriging (useful for vector field kriging)
+        self.X_ORIG = np.atleast_1d(
+            np.squeeze(np.array(x, copy=True, dtype=np.float64))
+        )
+        self.Y_ORIG = np.atleast_1d(
+            np.squeeze(np.array(y, copy=True, dtype=np.float64))
+        )
+        self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))
+
+        self.verbose = verbose
+        self.enable_plotting = enable_plotting
+        if self.enable_plotting and self.verbose:
+            print("Plotting Enabled\n")
+
+        # adjust for anisotropy... only implemented for euclidean (rectangular)
+        # coordinates, as anisotropy is ambiguous for geographic coordinates...
+        if self.coordinates_type == "euclidean":
+            self.XCENTER = (np.amax(self.X_ORIG) + np.amin(self.X_ORIG)) / 2.0
+            self.YCENTER = (np.amax(self.Y_ORIG) + np.amin(self.Y_ORIG)) / 2.0
+            self.anisotropy_scaling = anisotropy_scaling
+            self.anisotropy_angle = anisotropy_angle
+            if self.verbose:
+                print("Adjusting data for anisotropy...")
+            self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
+                np.vstack((self.X_ORIG, self.Y_ORIG)).T,
+                [self.XCENTER, self.YCENTER],
+                [self.anisotropy_scaling],
+                [self.anisotropy_angle],
+            ).T
+        elif self.coordinates_type == "geographic":
+            # Leave everything as is in geographic case.
+            # May be open to discussion?
+            if anisotropy_scaling != 1.0:
+                warnings.warn(
+                    "Anisotropy is not compatible with geographic "
+                    "coordinates. Ignoring user set anisotropy.",
+                    UserWarning,
+                )
+            self.XCENTER = 0.0
+            self.YCENTER = 0.0
+            self.anisotropy_scaling = 1.0
+            self.anisotropy_angle = 0.0
+            self.X_ADJUSTED = self.X_ORIG
+            self.Y_ADJUSTED = self.Y_ORIG
+        else:
+            raise ValueError(
+                "Only 'euclidean' and 'geographic' are valid "
+                "values for coordinates-keyword."
+            )
+
+        if self.verbose:
+            print("Initializing variogram model...")
+
+        vp_temp = _make_variogram_parameter_list(
+            self.variogram_model, variogram_parameters
+        )
+        (
+            self.lags,
+            self.semivariance,
+            self.variogram_model_parameters,
+        ) = _initialize_variogram_model(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_model,
+            vp_temp,
+            self.variogram_function,
+            nlags,
+            weight,
+            self.coordinates_type,
+        )
+
+        if self.verbose:
+            print("Coordinates type: '%s'" % self.coordinates_type, "\n")
+            if self.variogram_model == "linear":
+                print("Using '%s' Variogram Model" % "linear")
+                print("Slope:", self.variogram_model_parameters[0])
+                print("Nugget:", self.variogram_model_parameters[1], "\n")
+            elif self.variogram_model == "power":
+                print("Using '%s' Variogram Model" % "power")
+                print("Scale:", self.variogram_model_parameters[0])
+                print("Exponent:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+            elif self.variogram_model == "custom":
+                print("Using Custom Variogram Model")
+            else:
+                print("Using '%s' Variogram Model" % self.variogram_model)
+                print("Partial Sill:", self.variogram_model_parameters[0])
+                print(
+                    "Full Sill:",
+                    self.variogram_model_parameters[0]
+                    + self.variogram_model_parameters[2],
+                )
+                print("Range:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+        if self.enable_plotting:
+            self.display_variogram_model()
+
+        if self.verbose:
+            print("Calculating statistics on variogram model fit...")
+        if enable_statistics:
+            self.delta, self.sigma, self.epsilon = _find_statistics(
+                np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+                self.Z,
+                self.variogram_function,
+                self.variogram_model_parameters,
+                self.coordinates_type,
+                self.pseudo_inv,
+            )
+            self.Q1 = core.calcQ1(self.epsilon)
+            self.Q2 = core.calcQ2(self.epsilon)
+            self.cR = core.calc_cR(self.Q2, self.sigma)
+            if self.verbose:
+                print("Q1 =", self.Q1)
+                print("Q2 =", self.Q2)
+                print("cR =", self.cR, "\n")
+        else:
+            self.delta, self.sigma, self.epsilon, self.Q1, self.Q2, self.cR = [None] * 6
+
+    def update_variogram_model(
+        self,
+        variogram_model,
+        variogram_parameters=None,
+        variogram_function=None,
+        nlags=6,
+        weight=False,
+        anisotropy_scaling=1.0,
+        anisotropy_angle=0.0,
+    ):
+        """Allows user to update variogram type and/or
+        variogram model parameters.
+
+        Parameters
+        __________
+        variogram_model : str or GSTools CovModel
+            May be any of the variogram models listed
+            above. May also be 'custom', in which case variogram_parameters
+            and variogram_function must be specified.
+            You can also use a
+            `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
+        variogram_parameters : list or dict, optional
+            List or dict of
+            variogram model parameters, as explained above. If not provided,
+            a best fit model will be calculated as described above.
+        variogram_function : callable, optional
+            A callable function that must
+            be provided if variogram_model is specified as 'custom'.
+            See above for more information.
+        nlags : int, optional
+            Number of averaging bins for the semivariogram.
+            Default is 6.
+        weight : boolean, optional
+            Flag that specifies if semivariance at
+            smaller lags should be weighted more heavily when automatically
+            calculating the variogram model. See above for more information.
+            True indicates that weights will be applied. Default is False.
+        anisotropy_scaling : float, optional
+            Scalar stretching value to
+            take into account anisotropy. Default is 1 (effectively no
+            stretching). Scaling is applied in the y-direction.
+        anisotropy_angle : float, optional
+            CCW angle (in degrees) by
+            which to rotate coordinate system in order to take into
+            account anisotropy. Default is 0 (no rotation).
+        """
+
+        # set up variogram model and parameters...
+        self.variogram_model = variogram_model
+        self.model = None
+        # check if a GSTools covariance model is given
+        if hasattr(self.variogram_model, "pykrige_kwargs"):
+            # save the model in the class
+            self.model = self.variogram_model
+            validate_gstools(self.model)
+            if self.model.field_dim == 3:
+                raise ValueError("GSTools: model dim is not 1 or 2")
+            # check if coordinate types match
+            if self.model.latlon and (self.coordinates_type == "euclidean"):
+                raise ValueError(
+                    "GSTools: latlon models require geographic coordinates"
+                )
+            self.variogram_model = "custom"
+            variogram_function = self.model.pykrige_vario
+            variogram_parameters = []
+            anisotropy_scaling = self.model.pykrige_anis
+            anisotropy_angle = self.model.pykrige_angle
+        if (
+            self.variogram_model not in self.variogram_dict.keys()
+            and self.variogram_model != "custom"
+        ):
+            raise ValueError(
+                "Specified variogram model '%s' is not supported." % variogram_model
+            )
+        elif self.variogram_model == "custom":
+            if variogram_function is None or not callable(variogram_function):
+                raise ValueError(
+                    "Must specify callable function for custom variogram model."
+                )
+            else:
+                self.variogram_function = variogram_function
+        else:
+            self.variogram_function = self.variogram_dict[self.variogram_model]
+
+        if (
+            anisotropy_scaling != self.anisotropy_scaling
+            or anisotropy_angle != self.anisotropy_angle
+        ):
+            if self.coordinates_type == "euclidean":
+                if self.verbose:
+                    print("Adjusting data for anisotropy...")
+                self.anisotropy_scaling = anisotropy_scaling
+                self.anisotropy_angle = anisotropy_angle
+                self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
+                    np.vstack((self.X_ORIG, self.Y_ORIG)).T,
+                    [self.XCENTER, self.YCENTER],
+                    [self.anisotropy_scaling],
+                    [self.anisotropy_angle],
+                ).T
+            elif self.coordinates_type == "geographic":
+                if anisotropy_scaling != 1.0:
+                    warnings.warn(
+                        "Anisotropy is not compatible with geographic"
+                        " coordinates. Ignoring user set anisotropy.",
+                        UserWarning,
+                    )
+                self.anisotropy_scaling = 1.0
+                self.anisotropy_angle = 0.0
+                self.X_ADJUSTED = self.X_ORIG
+                self.Y_ADJUSTED = self.Y_ORIG
+        if self.verbose:
+            print("Updating variogram mode...")
+
+        # See note above about the 'use_psill' kwarg...
+        vp_temp = _make_variogram_parameter_list(
+            self.variogram_model, variogram_parameters
+        )
+        (
+            self.lags,
+            self.semivariance,
+            self.variogram_model_parameters,
+        ) = _initialize_variogram_model(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_model,
+            vp_temp,
+            self.variogram_function,
+            nlags,
+            weight,
+            self.coordinates_type,
+        )
+
+        if self.verbose:
+            print("Coordinates type: '%s'" % self.coordinates_type, "\n")
+            if self.variogram_model == "linear":
+                print("Using '%s' Variogram Model" % "linear")
+                print("Slope:", self.variogram_model_parameters[0])
+                print("Nugget:", self.variogram_model_parameters[1], "\n")
+            elif self.variogram_model == "power":
+                print("Using '%s' Variogram Model" % "power")
+                print("Scale:", self.variogram_model_parameters[0])
+                print("Exponent:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+            elif self.variogram_model == "custom":
+                print("Using Custom Variogram Model")
+            else:
+                print("Using '%s' Variogram Model" % self.variogram_model)
+                print("Partial Sill:", self.variogram_model_parameters[0])
+                print(
+                    "Full Sill:",
+                    self.variogram_model_parameters[0]
+                    + self.variogram_model_parameters[2],
+                )
+                print("Range:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+        if self.enable_plotting:
+            self.display_variogram_model()
+
+        if self.verbose:
+            print("Calculating statistics on variogram model fit...")
+        self.delta, self.sigma, self.epsilon = _find_statistics(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_function,
+            self.variogram_model_parameters,
+            self.coordinates_type,
+            self.pseudo_inv,
+        )
+        self.Q1 = core.calcQ1(self.epsilon)
+        self.Q2 = core.calcQ2(self.epsilon)
+        self.cR = core.calc_cR(self.Q2, self.sigma)
+        if self.verbose:
+            print("Q1 =", self.Q1)
+            print("Q2 =", self.Q2)
+            print("cR =", self.cR, "\n")
+
+    def display_variogram_model(self):
+        """Displays variogram model with the actual binned data."""
+        import matplotlib.pyplot as plt
+
+        fig = plt.figure()
+        ax = fig.add_subplot(111)
+        ax.plot(self.lags, self.semivariance, "r*")
+        ax.plot(
+            self.lags,
+            self.variogram_function(self.variogram_model_parameters, self.lags),
+            "k-",
+        )
+        plt.show()
+
+    def get_variogram_points(self):
+        """Returns both the lags and the variogram function evaluated at each
+        of them.
+
+        The evaluation of the variogram function and the lags are produced
+        internally. This method is convenient when the user wants to access to
+        the lags and the resulting variogram (according to the model provided)
+        for further analysis.
+
+        Returns
+        -------
+        (tuple) tuple containing:
+            lags (array) - the lags at which the variogram was evaluated
+            variogram (array) - the variogram function evaluated at the lags
+        """
+        return (
+            self.lags,
+            self.variogram_function(self.variogram_model_parameters, self.lags),
+        )
+
+    def switch_verbose(self):
+        """Allows user to switch code talk-back on/off. Takes no arguments."""
+        self.verbose = not self.verbose
+
+    def switch_plotting(self):
+        """Allows user to switch plot display on/off. Takes no arguments."""
+        self.enable_plotting = not self.enable_plotting
+
+    def get_epsilon_residuals(self):
+        """Returns the epsilon residuals for the variogram fit."""
+        return self.epsilon
+
+    def plot_epsilon_residuals(self):
+        """Plots the epsilon residuals for the variogram fit."""
+        import matplotlib.pyplot as plt
+
+        fig = plt.figure()
+        ax = fig.add_subplot(111)
+        ax.scatter(range(self.epsilon.size), self.epsilon, c="k", marker="*")
+        ax.axhline(y=0.0)
+        plt.show()
+
+    def get_statistics(self):
+        """Returns the Q1, Q2, and cR statistics for the variogram fit
+        (in that order). No arguments.
+        """
+        return self.Q1, self.Q2, self.cR
+
+    def print_statistics(self):
+        """Prints out the Q1, Q2, and cR statistics for the variogram fit.
+        NOTE that ideally Q1 is close to zero, Q2 is close to 1,
+        and cR is as small as possible.
+        """
+        print("Q1 =", self.Q1)
+        print("Q2 =", self.Q2)
+        print("cR =", self.cR)
+
+    def _get_kriging_matrix(self, n):
+        """Assembles the kriging matrix."""
+
+        if self.coordinates_type == "euclidean":
+            xy = np.concatenate(
+                (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
+            )
+            d = cdist(xy, xy, "euclidean")
+        elif self.coordinates_type == "geographic":
+            d = core.great_circle_distance(
+                self.X_ADJUSTED[:, np.newaxis],
+                self.Y_ADJUSTED[:, np.newaxis],
+                self.X_ADJUSTED,
+                self.Y_ADJUSTED,
+            )
+        a = np.zeros((n + 1, n + 1))
+        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)
+
+        np.fill_diagonal(a, 0.0)
+        a[n, :] = 1.0
+        a[:, n] = 1.0
+        a[n, n] = 0.0
+        return a
+
+    def _exec_vector(self, a, bd, mask):
+        """Solves the kriging system as a vectorized operation. This method
+        can take a lot of memory for large grids and/or large datasets."""
+
+        npt = bd.shape[0]
+        n = self.X_ADJUSTED.shape[0]
+        zero_index = None
+        zero_value = False
+
+        # use the desired method to invert the kriging matrix
+        if self.pseudo_inv:
+            a_inv = P_INV[self.pseudo_inv_type](a)
+        else:
+            a_inv = scipy.linalg.inv(a)
+
+        if np.any(np.absolute(bd) <= self.eps):
+            zero_value = True
+            zero_index = np.where(np.absolute(bd) <= self.eps)
+
+        b = np.zeros((npt, n + 1, 1))
+        b[:, :n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
+        if zero_value and self.exact_values:
+            b[zero_index[0], zero_index[1], 0] = 0.0
+        b[:, n, 0] = 1.0
+
+        if (~mask).any():
+            mask_b = np.repeat(mask[:, np.newaxis, np.newaxis], n + 1, axis=1)
+            b = np.ma.array(b, mask=mask_b)
+
+        x = np.dot(a_inv, b.reshape((npt, n + 1)).T).reshape((1, n + 1, npt)).T
+        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)
+        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)
+
+        return zvalues, sigmasq
+
+    def _exec_loop(self, a, bd_all, mask):
+        """Solves the kriging system by looping over all specified points.
+        Less memory-intensive, but involves a Python-level loop."""
+
+        npt = bd_all.shape[0]
+        n = self.X_ADJUSTED.shape[0]
+        zvalues = np.zeros(npt)
+        sigmasq = np.zeros(npt)
+
+        # use the desired method to invert the kriging matrix
+        if self.pseudo_inv:
+            a_inv = P_INV[self.pseudo_inv_type](a)
+        else:
+            a_inv = scipy.linalg.inv(a)
+
+        for j in np.nonzero(~mask)[
+            0
+        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
+            bd = bd_all[j]  # otherwise it takes the non-masked elements.
+            if np.any(np.absolute(bd) <= self.eps):
+                zero_value = True
+                zero_index = np.where(np.absolute(bd) <= self.eps)
+            else:
+                zero_index = None
+                zero_value = False
+
+            b = np.zeros((n + 1, 1))
+            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
+            if zero_value and self.exact_values:
+                b[zero_index[0], 0] = 0.0
+            b[n, 0] = 1.0
+            x = np.dot(a_inv, b)
+            zvalues[j] = np.sum(x[:n, 0] * self.Z)
+            sigmasq[j] = np.sum(x[:, 0] * -b[:, 0])
+
+        return zvalues, sigmasq
+
+    def _exec_loop_moving_window(self, a_all, bd_all, mask, bd_idx):
+        """Solves the kriging system by looping over all specified points.
+        Less memory-intensive, but involves a Python-level loop."""
+        import scipy.linalg.lapack
+
+        npt = bd_all.shape[0]
+        n = bd_idx.shape[1]
+        zvalues = np.zeros(npt)
+        sigmasq = np.zeros(npt)
+
+        for i in np.nonzero(~mask)[
+            0
+        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
+            b_selector = bd_idx[i]  # otherwise it takes the non-masked elements.
+            bd = bd_all[i]
+
+            a_selector = np.concatenate((b_selector, np.array([a_all.shape[0] - 1])))
+            a = a_all[a_selector[:, None], a_selector]
+
+            if np.any(np.absolute(bd) <= self.eps):
+                zero_value = True
+                zero_index = np.where(np.absolute(bd) <= self.eps)
+            else:
+                zero_index = None
+                zero_value = False
+            b = np.zeros((n + 1, 1))
+            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
+            if zero_value and self.exact_values:
+                b[zero_index[0], 0] = 0.0
+            b[n, 0] = 1.0
+
+            x = scipy.linalg.solve(a, b)
+
+            zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
+            sigmasq[i] = -x[:, 0].dot(b[:, 0])
+
+        return zvalues, sigmasq
+
+    def execute(
+        self,
+        style,
+        xpoints,
+        ypoints,
+        mask=None,
+        backend="vectorized",
+        n_closest_points=None,
+    ):
+        """Calculates a kriged grid and the associated variance.
+
+        Parameters
+        ----------
+        style : str
+            Specifies how to treat input kriging points. Specifying 'grid'
+            treats xpoints and ypoints as two arrays of x and y coordinates
+            that define a rectangular grid. Specifying 'points' treats
+            xpoints and ypoints as two arrays that provide coordinate pairs
+            at which to solve the kriging system. Specifying 'masked'
+            treats xpoints and ypoints as two arrays of x and y coordinates
+            that define a rectangular grid and uses mask to only evaluate
+            specific points in the grid.
+        xpoints : array_like, shape (N,) or (N, 1)
+            If style is specific as 'grid' or 'masked',
+            x-coordinates of MxN grid. If style is specified as 'points',
+            x-coordinates of specific points at which to solve
+            kriging system.
+        ypoints : array_like, shape (M,) or (M, 1)
+            If style is specified as 'grid' or 'masked',
+            y-coordinates of MxN grid. If style is specified as 'points',
+            y-coordinates of specific points at which to solve kriging
+            system. Note that in this case, xpoints and ypoints must have
+            the same dimensions (i.e., M = N).
+        mask : bool, array_like, shape (M, N), optional
+            Specifies the points in the rectangular grid defined
+            by xpoints and ypoints that are to be excluded in the
+            kriging calculations. Must be provided if style is specified
+            as 'masked'. False indicates that the point should not be
+            masked, so the kriging system will be solved at the point.
+            True indicates that the point should be masked, so the kriging
+            system should will not be solved at the point.
+        backend : str, optional
+            Specifies which approach to use in kriging.
+            Specifying 'vectorized' will solve the entire kriging problem
+            at once in a vectorized operation. This approach is faster but
+            also can consume a significant amount of memory for large grids
+            and/or large datasets. Specifying 'loop' will loop through each
+            point at which the kriging system is to be solved.
+            This approach is slower but also less memory-intensive.
+            Specifying 'C' will utilize a loop in Cython.
+            Default is 'vectorized'.
+        n_closest_points : int, optional
+            For kriging with a moving window, specifies the number of
+            nearby points to use in the calculation. This can speed up the
+            calculation for large datasets, but should be used
+            with caution. As Kitanidis notes, kriging with a moving window
+            can produce unexpected oddities if the variogram model
+            is not carefully chosen.
+
+        Returns
+        -------
+        zvalues : ndarray, shape (M, N) or (N, 1)
+            Z-values of specified grid or at the specified set of points.
+            If style was specified as 'masked', zvalues will
+            be a numpy masked array.
+        sigmasq : ndarray, shape (M, N) or (N, 1)
+            Variance at specified grid points or at the specified
+            set of points. If style was specified as 'masked', sigmasq
+            will be a numpy masked array.
+        """
+
+        if self.verbose:
+            print("Executing Ordinary Kriging...\n")
+
+        if style != "grid" and style != "masked" and style != "points":
+            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
+
+        if n_closest_points is not None and n_closest_points <= 1:
+            # If this is not checked, nondescriptive errors emerge
+            # later in the code.
+            raise ValueError("n_closest_points has to be at least two!")
+        if n_closest_points is not None:
+            # there can't be more neighbors than data points
+            n_closest_points = min(n_closest_points, self.X_ADJUSTED.shape[0])
+
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        n = self.X_ADJUSTED.shape[0]
+        nx = xpts.size
+        ny = ypts.size
+        a = self._get_kriging_matrix(n)
+
+        if style in ["grid", "masked"]:
+            if style == "masked":
+                if mask is None:
+                    raise IOError(
+                        "Must specify boolean masking array when style is 'masked'."
+                    )
+                if mask.shape[0] != ny or mask.shape[1] != nx:
+                    if mask.shape[0] == nx and mask.shape[1] == ny:
+                        mask = mask.T
+                    else:
+                        raise ValueError(
+                            "Mask dimensions do not match specified grid dimensions."
+                        )
+                mask = mask.flatten()
+            npt = ny * nx
+            grid_x, grid_y = np.meshgrid(xpts, ypts)
+            xpts = grid_x.flatten()
+            ypts = grid_y.flatten()
+
+        elif style == "points":
+            if xpts.size != ypts.size:
+                raise ValueError(
+                    "xpoints and ypoints must have "
+                    "same dimensions when treated as "
+                    "listing discrete points."
+                )
+            npt = nx
+        else:
+            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
+
+        if self.coordinates_type == "euclidean":
+            xpts, ypts = _adjust_for_anisotropy(
+                np.vstack((xpts, ypts)).T,
+                [self.XCENTER, self.YCENTER],
+                [self.anisotropy_scaling],
+                [self.anisotropy_angle],
+            ).T
+            # Prepare for cdist:
+            xy_data = np.concatenate(
+                (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
+            )
+            xy_points = np.concatenate(
+                (xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1
+            )
+        elif self.coordinates_type == "geographic":
+            # In spherical coordinates, we do not correct for anisotropy.
+            # Also, we don't use scipy.spatial.cdist, so we do not have to
+            # format the input data accordingly.
+            pass
+
+        if style != "masked":
+            mask = np.zeros(npt, dtype="bool")
+
+        c_pars = None
+        if backend == "C":
+            try:
+                from .lib.cok import _c_exec_loop, _c_exec_loop_moving_window
+            except ImportError:
+                print(
+                    "Warning: failed to load Cython extensions.\n"
+                    "   See https://github.com/GeoStat-Framework/PyKrige/issues/8 \n"
+                    "   Falling back to a pure python backend..."
+                )
+                backend = "loop"
+            except:
+                raise RuntimeError("Unknown error in trying to load Cython extension.")
+
+            c_pars = {
+                key: getattr(self, key)
+                for key in [
+                    "Z",
+                    "eps",
+                    "variogram_model_parameters",
+                    "variogram_function",
+                    "exact_values",
+                    "pseudo_inv",
+                    "pseudo_inv_type",
+                ]
+            }
+
+        if n_closest_points is not None:
+            if self.coordinates_type == "geographic":
+                # To make use of the KDTree, we have to convert the
+                # spherical coordinates into three dimensional Euclidean
+                # coordinates, since the standard KDTree cannot handle
+                # the periodicity.
+                # Do the conversion just for the step involving the KDTree:
+                lon_d = self.X_ADJUSTED[:, np.newaxis] * np.pi / 180.0
+                lat_d = self.Y_ADJUSTED[:, np.newaxis] * np.pi / 180.0
+                xy_data = np.concatenate(
+                    (
+                        np.cos(lon_d) * np.cos(lat_d),
+                        np.sin(lon_d) * np.cos(lat_d),
+                        np.sin(lat_d),
+                    ),
+                    axis=1,
+                )
+                lon_p = xpts[:, np.newaxis] * np.pi / 180.0
+                lat_p = ypts[:, np.newaxis] * np.pi / 180.0
+                xy_points = np.concatenate(
+                    (
+                        np.cos(lon_p) * np.cos(lat_p),
+                        np.sin(lon_p) * np.cos(lat_p),
+                        np.sin(lat_p),
+                    ),
+                    axis=1,
+                )
+
+            from scipy.spatial import cKDTree
+
+            tree = cKDTree(xy_data)
+            bd, bd_idx = tree.query(xy_points, k=n_closest_points, eps=0.0)
+
+            if self.coordinates_type == "geographic":
+                # Between the nearest neighbours from Euclidean search,
+                # calculate the great circle distance using the standard method:
+                x_points = np.tile(xpts[:, np.newaxis], (1, n_closest_points))
+                y_points = np.tile(ypts[:, np.newaxis], (1, n_closest_points))
+                bd = core.great_circle_distance(
+                    x_points, y_points, self.X_ADJUSTED[bd_idx], self.Y_ADJUSTED[bd_idx]
+                )
+
+            if backend == "loop":
+                zvalues, sigmasq = self._exec_loop_moving_window(a, bd, mask, bd_idx)
+            elif backend == "C":
+                zvalues, sigmasq = _c_exec_loop_moving_window(
+                    a,
+                    bd,
+                    mask.astype("int8"),
+                    bd_idx.astype("long"),
+                    self.X_ADJUSTED.shape[0],
+                    c_pars,
+                )
+            else:
+                raise ValueError(
+                    "Specified backend {} for a moving window "
+                    "is not supported.".format(backend)
+                )
+        else:
+            if self.coordinates_type == "euclidean":
+                bd = cdist(xy_points, xy_data, "euclidean")
+            elif self.coordinates_type == "geographic":
+                bd = core.great_circle_distance(
+                    xpts[:, np.newaxis],
+                    ypts[:, np.newaxis],
+                    self.X_ADJUSTED,
+                    self.Y_ADJUSTED,
+                )
+
+            if backend == "vectorized":
+                zvalues, sigmasq = self._exec_vector(a, bd, mask)
+            elif backend == "loop":
+                zvalues, sigmasq = self._exec_loop(a, bd, mask)
+            elif backend == "C":
+                zvalues, sigmasq = _c_exec_loop(
+                    a, bd, mask.astype("int8"), self.X_ADJUSTED.shape[0], c_pars
+                )
+            else:
+                raise ValueError(
+                    "Specified backend {} is not supported for "
+                    "2D ordinary kriging.".format(backend)
+                )
+
+        if style == "masked":
+            zvalues = np.ma.array(zvalues, mask=mask)
+            sigmasq = np.ma.array(sigmasq, mask=mask)
+
+        if style in ["masked", "grid"]:
+            zvalues = zvalues.reshape((ny, nx))
+            sigmasq = sigmasq.reshape((ny, nx))
+
+        return zvalues, sigmasq
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 417c82c..8c8d886 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -901,6 +901,8 @@ class OrdinaryKriging3D:
         if n_closest_points is not None:
             from scipy.spatial import cKDTree
 
+            # there can't be more neighbors than data points
+            n_closest_points = min(n_closest_points, n)
             tree = cKDTree(xyz_data)
             bd, bd_idx = tree.query(xyz_points, k=n_closest_points, eps=0.0)
             if backend == "loop":
-- 
2.43.0


From 958cfb5a37c9665aa0bae833003737e33900bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 06/53] fix: C backend rejected integer variogram parameters

---
 src/pykrige/lib/cok.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index 9a350e1..e202340 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -36,7 +36,9 @@ cpdef _c_exec_loop(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(
+        pars['variogram_model_parameters'], dtype='float64'
+    )
 
     cdef double [::1, :] a_inv = np.asfortranarray(np.empty_like(a_all))
 
@@ -125,7 +127,9 @@ cpdef _c_exec_loop_moving_window(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(
+        pars['variogram_model_parameters'], dtype='float64'
+    )
 
     for i in range(npt):
         if mask[i]:
-- 
2.43.0


From d049772ee6e5607ad138a748d9ef8364150648dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 07/53] fix: integer or single precision kriging coordinates
 were rejected or mislocated

---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 30ae911..d30c0f5 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -142,7 +142,7 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
     center = np.asarray(center)[None, :]
     angle = np.asarray(angle) * np.pi / 180
 
-    X -= center
+    X = np.asarray(X, dtype=np.float64) - center
 
     Ndim = X.shape[1]
 
-- 
2.43.0


From ae1f1052b8d62c67500daa545a2b5855d009a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 08/53] fix: don't keep a reference to the user's variogram
 parameter list

---
 src/pykrige/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index d30c0f5..9e7c89d 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -330,7 +330,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'linear'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["power"]:
             if len(variogram_model_parameters) != 3:
@@ -340,7 +340,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'power'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["gaussian", "spherical", "exponential", "hole-effect"]:
             if len(variogram_model_parameters) != 3:
@@ -357,7 +357,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
             ]
 
         elif variogram_model in ["custom"]:
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         else:
             raise ValueError(
-- 
2.43.0


From 733d8463d72807375a78c84402903efbb9b16c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 09/53] fix: C backend silently replaced a custom variogram
 function named like a built-in one

---
 src/pykrige/ok.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index d92a0a2..1a6beab 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -904,6 +904,11 @@ class OrdinaryKriging:
 
         c_pars = None
         if backend == "C":
+            # the extension selects its own implementation by function name
+            if self.variogram_function not in self.variogram_dict.values():
+                raise NotImplementedError(
+                    "Custom variogram functions are not supported by the C backend."
+                )
             try:
                 from .lib.cok import _c_exec_loop, _c_exec_loop_moving_window
             except ImportError:
-- 
2.43.0


From 38ac5fe26262e46e5ee569398e730775e8d8fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 10/53] fix: write_asc_grid rounded the grid origin and cell
 size to two decimals

---
 src/pykrige/kriging_tools.py | 928 +++++++++++++++++------------------
 1 file changed, 464 insertions(+), 464 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 496dad8..35693e4 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -1,464 +1,464 @@
-# coding: utf-8
-"""
-PyKrige
-=======
-
-Code by Benjamin S. Murphy and the PyKrige Developers
-bscott.murphy@gmail.com
-
-Summary
--------
-Methods for reading/writing ASCII grid files.
-
-Copyright (c) 2015-2020, PyKrige Developers
-"""
-import datetime
-import io
-import os
-import warnings
-
-import numpy as np
-
-
-def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
-    r"""Writes gridded data to ASCII grid file (\*.asc).
-
-    This is useful for exporting data to a GIS program.
-
-    Parameters
-    ----------
-    x : array_like, shape (N,) or (N, 1)
-        X-coordinates of grid points at center of cells.
-    y : array_like, shape (M,) or (M, 1)
-        Y-coordinates of grid points at center of cells.
-    z : array_like, shape (M, N)
-        Gridded data values. May be a masked array.
-    filename : string, optional
-        Name of output \*.asc file. Default name is 'output.asc'.
-    no_data : float, optional
-        no data value to be used
-    style : int, optional
-        Determines how to write the \*.asc file header.
-        Specifying 1 writes out DX, DY, XLLCENTER, YLLCENTER.
-        Specifying 2 writes out CELLSIZE (note DX must be the same as DY),
-        XLLCORNER, YLLCORNER. Default is 1.
-    """
-
-    if np.ma.is_masked(z):
-        z = np.array(z.tolist(no_data))
-
-    x = np.squeeze(np.array(x))
-    y = np.squeeze(np.array(y))
-    z = np.squeeze(np.array(z))
-    nrows = z.shape[0]
-    ncols = z.shape[1]
-
-    if z.ndim != 2:
-        raise ValueError("Two-dimensional grid is required to write *.asc grid.")
-    if x.ndim > 1 or y.ndim > 1:
-        raise ValueError(
-            "Dimensions of X and/or Y coordinate arrays are not "
-            "as expected. Could not write *.asc grid."
-        )
-    if z.shape != (y.size, x.size):
-        warnings.warn(
-            "Grid dimensions are not as expected. "
-            "Incorrect *.asc file generation may result.",
-            RuntimeWarning,
-        )
-    if np.amin(x) != x[0] or np.amin(y) != y[0]:
-        warnings.warn(
-            "Order of X or Y coordinates is not as expected. "
-            "Incorrect *.asc file generation may result.",
-            RuntimeWarning,
-        )
-
-    dx = abs(x[1] - x[0])
-    dy = abs(y[1] - y[0])
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
-    ):
-        raise ValueError(
-            "X or Y spacing is not constant; *.asc grid cannot be written."
-        )
-    cellsize = -1
-    if style == 2:
-        if dx != dy:
-            raise ValueError(
-                "X and Y spacing is not the same. "
-                "Cannot write *.asc file in the specified format."
-            )
-        cellsize = dx
-
-    xllcenter = x[0]
-    yllcenter = y[0]
-
-    # Note that these values are flagged as -1. If there is a problem in trying
-    # to write out style 2, the -1 value will appear in the output file.
-    xllcorner = -1
-    yllcorner = -1
-    if style == 2:
-        xllcorner = xllcenter - dx / 2.0
-        yllcorner = yllcenter - dy / 2.0
-
-    with io.open(filename, "w") as f:
-        if style == 1:
-            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
-            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
-            f.write("XLLCENTER      " + "{:<10.2f}".format(xllcenter) + "\n")
-            f.write("YLLCENTER      " + "{:<10.2f}".format(yllcenter) + "\n")
-            f.write("DX             " + "{:<10.2f}".format(dx) + "\n")
-            f.write("DY             " + "{:<10.2f}".format(dy) + "\n")
-            f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
-        elif style == 2:
-            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
-            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
-            f.write("XLLCORNER      " + "{:<10.2f}".format(xllcorner) + "\n")
-            f.write("YLLCORNER      " + "{:<10.2f}".format(yllcorner) + "\n")
-            f.write("CELLSIZE       " + "{:<10.2f}".format(cellsize) + "\n")
-            f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
-        else:
-            raise ValueError("style kwarg must be either 1 or 2.")
-
-        for m in range(z.shape[0] - 1, -1, -1):
-            for n in range(z.shape[1]):
-                f.write("{:<16.2f}".format(z[m, n]))
-            if m != 0:
-                f.write("\n")
-
-
-def read_asc_grid(filename, footer=0):
-    r"""Reads ASCII grid file (\*.asc).
-
-    Parameters
-    ----------
-    filename : str
-        Name of \*.asc file.
-    footer : int, optional
-        Number of lines at bottom of \*.asc file to skip.
-
-    Returns
-    -------
-    grid_array : numpy array, shape (M, N)
-        (M, N) array of grid values, where M is number of Y-coordinates and
-        N is number of X-coordinates. The array entry corresponding to
-        the lower-left coordinates is at index [M, 0], so that
-        the array is oriented as it would be in X-Y space.
-    x : numpy array, shape (N,)
-        1D array of N X-coordinates.
-    y : numpy array, shape (M,)
-        1D array of M Y-coordinates.
-    CELLSIZE : tuple or float
-        Either a two-tuple of (x-cell size, y-cell size),
-        or a float that specifies the uniform cell size.
-    NODATA : float
-        Value that specifies which entries are not actual data.
-    """
-
-    ncols = None
-    nrows = None
-    xllcorner = None
-    xllcenter = None
-    yllcorner = None
-    yllcenter = None
-    cellsize = None
-    dx = None
-    dy = None
-    no_data = None
-    header_lines = 0
-    with io.open(filename, "r") as f:
-        while True:
-            string, value = f.readline().split()
-            header_lines += 1
-            if string.lower() == "ncols":
-                ncols = int(value)
-            elif string.lower() == "nrows":
-                nrows = int(value)
-            elif string.lower() == "xllcorner":
-                xllcorner = float(value)
-            elif string.lower() == "xllcenter":
-                xllcenter = float(value)
-            elif string.lower() == "yllcorner":
-                yllcorner = float(value)
-            elif string.lower() == "yllcenter":
-                yllcenter = float(value)
-            elif string.lower() == "cellsize":
-                cellsize = float(value)
-            elif string.lower() == "cell_size":
-                cellsize = float(value)
-            elif string.lower() == "dx":
-                dx = float(value)
-            elif string.lower() == "dy":
-                dy = float(value)
-            elif string.lower() == "nodata_value":
-                no_data = float(value)
-            elif string.lower() == "nodatavalue":
-                no_data = float(value)
-            else:
-                raise IOError("could not read *.asc file. Error in header.")
-
-            if (
-                (ncols is not None)
-                and (nrows is not None)
-                and (
-                    ((xllcorner is not None) and (yllcorner is not None))
-                    or ((xllcenter is not None) and (yllcenter is not None))
-                )
-                and ((cellsize is not None) or ((dx is not None) and (dy is not None)))
-                and (no_data is not None)
-            ):
-                break
-
-    raw_grid_array = np.genfromtxt(
-        filename, skip_header=header_lines, skip_footer=footer
-    )
-    grid_array = np.flipud(raw_grid_array)
-
-    if nrows != grid_array.shape[0] or ncols != grid_array.shape[1]:
-        raise IOError(
-            "Error reading *.asc file. Encountered problem "
-            "with header: NCOLS and/or NROWS does not match "
-            "number of columns/rows in data file body."
-        )
-
-    if xllcorner is not None and yllcorner is not None:
-        if dx is not None and dy is not None:
-            xllcenter = xllcorner + dx / 2.0
-            yllcenter = yllcorner + dy / 2.0
-        else:
-            xllcenter = xllcorner + cellsize / 2.0
-            yllcenter = yllcorner + cellsize / 2.0
-
-    if dx is not None and dy is not None:
-        x = np.arange(xllcenter, xllcenter + ncols * dx, dx)
-        y = np.arange(yllcenter, yllcenter + nrows * dy, dy)
-    else:
-        x = np.arange(xllcenter, xllcenter + ncols * cellsize, cellsize)
-        y = np.arange(yllcenter, yllcenter + nrows * cellsize, cellsize)
-
-    # Sometimes x and y and can be an entry too long due to imprecision
-    # in calculating the upper cutoff for np.arange(); this bit takes care of
-    # that potential problem.
-    if x.size == ncols + 1:
-        x = x[:-1]
-    if y.size == nrows + 1:
-        y = y[:-1]
-
-    if cellsize is None:
-        cellsize = (dx, dy)
-
-    return grid_array, x, y, cellsize, no_data
-
-
-def write_zmap_grid(
-    x, y, z, filename="output.zmap", no_data=-999.0, coord_sys="<null>"
-):
-    r"""Writes gridded data to ASCII grid file in zmap format (\*.zmap).
-
-    This is useful for exporting data to a GIS program, or Petrel
-    https://gdal.org/drivers/raster/zmap.html
-
-    Parameters
-    ----------
-    x : array_like, shape (N,) or (N, 1)
-        X-coordinates of grid points at center of cells.
-    y : array_like, shape (M,) or (M, 1)
-        Y-coordinates of grid points at center of cells.
-    z : array_like, shape (M, N)
-        Gridded data values. May be a masked array.
-    filename : string, optional
-        Name of output \*.zmap file. Default name is 'output.zmap'.
-    no_data : float, optional
-        no data value to be used
-    coord_sys : String, optional
-        coordinate sytem description
-    """
-
-    nodes_per_line = 5
-    field_width = 15
-
-    if np.ma.is_masked(z):
-        z = np.array(z.tolist(no_data))
-
-    x = np.squeeze(np.array(x))
-    y = np.squeeze(np.array(y))
-    z = np.squeeze(np.array(z))
-    nx = len(x)
-    ny = len(y)
-
-    dx = abs(x[1] - x[0])
-    dy = abs(y[1] - y[0])
-
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
-    ):
-        raise ValueError(
-            "X or Y spacing is not constant; *.asc grid cannot be written."
-        )
-
-    xllcenter = x[0]
-    yllcenter = y[0]
-
-    hix = xllcenter + (nx - 1) * dx
-    hiy = yllcenter + (ny - 1) * dy
-
-    now = datetime.datetime.now()
-
-    with io.open(filename, "w") as f:
-        f.write("!" + "\n")
-        f.write("!     ZIMS FILE NAME :  " + os.path.basename(filename) + "\n")
-        f.write(
-            "!     FORMATTED FILE CREATION DATE: " + now.strftime("%d/%m/%Y") + "\n"
-        )
-        f.write(
-            "!     FORMATTED FILE CREATION TIME: " + now.strftime("%H:%M:%S") + "\n"
-        )
-        f.write("!     COORDINATE REFERENCE SYSTEM: " + coord_sys + "\n")
-        f.write("!" + "\n")
-        f.write("@Grid HEADER, GRID, " + str(nodes_per_line) + "\n")
-        f.write(" " + str(field_width) + ", " + str(no_data) + ",  , 1 , 1" + "\n")
-        f.write(
-            "   "
-            + str(ny)
-            + ",  "
-            + str(nx)
-            + ",  "
-            + str(xllcenter)
-            + ",  "
-            + str(hix)
-            + ",  "
-            + str(yllcenter)
-            + ",  "
-            + str(hiy)
-            + "\n"
-        )
-        f.write("   " + str(dx) + ",  0.0,  0.0    " + "\n")
-        f.write("@" + "\n")
-
-        for n in range(z.shape[1]):
-            count = 0
-            for m in range(z.shape[0] - 1, -1, -1):
-                count += 1
-                if np.isnan(z[m, n]):
-                    f.write(space_back_to_front(format(no_data, "13.7E") + "  "))
-                else:
-                    if abs(z[m, n]) >= 1e100:  # one tailing space less
-                        f.write(space_back_to_front(format(z[m, n], "13.7E") + " "))
-                    elif abs(z[m, n]) >= 1e6:
-                        f.write(space_back_to_front(format(z[m, n], "13.7E") + "  "))
-                    else:
-                        f.write(space_back_to_front("{:<13.4f}".format(z[m, n]) + "  "))
-                if count % nodes_per_line == 0 or m == 0:
-                    f.write("\n")
-
-
-def read_zmap_grid(filename):
-    r"""Reads ASCII grid file in zmap format (\*.zmap).
-    https://gdal.org/drivers/raster/zmap.html
-
-    Parameters
-    ----------
-    filename : str
-        Name of \*.zmap file.
-
-    Returns
-    -------
-    grid_array : numpy array, shape (M, N)
-        (M, N) array of grid values, where M is number of Y-coordinates and
-        N is number of X-coordinates. The array entry corresponding to
-        the lower-left coordinates is at index [M, 0], so that
-        the array is oriented as it would be in X-Y space.
-    x : numpy array, shape (N,)
-        1D array of N X-coordinates.
-    y : numpy array, shape (M,)
-        1D array of M Y-coordinates.
-    cellsize : tuple or float
-        Either a two-tuple of (x-cell size, y-cell size),
-        or a float that specifies the uniform cell size.
-    no_data_value : float
-        Value that specifies which entries are not actual data.
-    coord_sys : String
-        Coordinate system name
-    """
-
-    no_data_value, nx, ny, originx, originy, maxx, maxy, dx, dy = (
-        0,
-        0,
-        0,
-        0,
-        0,
-        0,
-        0,
-        0,
-        0,
-    )
-    data_values = np.empty(1)
-    coord_sys = "<null>"
-
-    i_header_line, i_value = 0, 0
-    with io.open(filename, "r") as f:
-        while True:
-            line = f.readline()
-            if line.startswith("!"):
-                line_strings = line.split(":")
-                if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
-                    coord_sys = line_strings[1].replace("\n", "")
-            else:
-                line_strings = line.split()
-                line_strings = [string.replace(",", "") for string in line_strings]
-
-            if len(line_strings) == 0:
-                break
-
-            if i_header_line == -1 and not line_strings[0].startswith("!"):
-                for i_string in range(len(line_strings)):
-                    data_values[i_value] = float(line_strings[i_string])
-                    i_value += 1
-
-            if line_strings[0].startswith("@"):
-                if i_header_line == 0:
-                    i_header_line += 1
-                else:
-                    i_header_line = -1
-
-            if i_header_line > 0:
-                if i_header_line == 2:
-                    no_data_value = float(line_strings[1])
-                elif i_header_line == 3:
-                    ny = int(line_strings[0])
-                    nx = int(line_strings[1])
-                    originx = float(line_strings[2])
-                    maxx = float(line_strings[3])
-                    originy = float(line_strings[4])
-                    maxy = float(line_strings[5])
-                    data_values = np.empty(ny * nx)
-                i_header_line += 1
-
-    if nx * ny != len(data_values):
-        raise IOError(
-            "Error reading *.zmap file. Encountered problem "
-            "with header: (nx * ny) does not match with the "
-            "number items in data file body."
-        )
-
-    z = np.empty([ny, nx])
-    i_value = 0
-    for n in range(z.shape[1]):
-        for m in range(z.shape[0] - 1, -1, -1):
-            z[m, n] = data_values[i_value]
-            i_value += 1
-
-    dx = (maxx - originx) / (nx - 1)
-    dy = (maxy - originy) / (ny - 1)
-
-    gridx = np.arange(originx, originx + nx * dx, dx)
-    gridy = np.arange(originy, originy + ny * dy, dy)
-
-    cellsize = (dx, dy)
-
-    return z, gridx, gridy, cellsize, no_data_value, coord_sys
-
-
-def space_back_to_front(string):
-    net = string.replace(" ", "")
-    return "".join(string.rsplit(net)) + net
+# coding: utf-8
+"""
+PyKrige
+=======
+
+Code by Benjamin S. Murphy and the PyKrige Developers
+bscott.murphy@gmail.com
+
+Summary
+-------
+Methods for reading/writing ASCII grid files.
+
+Copyright (c) 2015-2020, PyKrige Developers
+"""
+import datetime
+import io
+import os
+import warnings
+
+import numpy as np
+
+
+def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
+    r"""Writes gridded data to ASCII grid file (\*.asc).
+
+    This is useful for exporting data to a GIS program.
+
+    Parameters
+    ----------
+    x : array_like, shape (N,) or (N, 1)
+        X-coordinates of grid points at center of cells.
+    y : array_like, shape (M,) or (M, 1)
+        Y-coordinates of grid points at center of cells.
+    z : array_like, shape (M, N)
+        Gridded data values. May be a masked array.
+    filename : string, optional
+        Name of output \*.asc file. Default name is 'output.asc'.
+    no_data : float, optional
+        no data value to be used
+    style : int, optional
+        Determines how to write the \*.asc file header.
+        Specifying 1 writes out DX, DY, XLLCENTER, YLLCENTER.
+        Specifying 2 writes out CELLSIZE (note DX must be the same as DY),
+        XLLCORNER, YLLCORNER. Default is 1.
+    """
+
+    if np.ma.is_masked(z):
+        z = np.array(z.tolist(no_data))
+
+    x = np.squeeze(np.array(x))
+    y = np.squeeze(np.array(y))
+    z = np.squeeze(np.array(z))
+    nrows = z.shape[0]
+    ncols = z.shape[1]
+
+    if z.ndim != 2:
+        raise ValueError("Two-dimensional grid is required to write *.asc grid.")
+    if x.ndim > 1 or y.ndim > 1:
+        raise ValueError(
+            "Dimensions of X and/or Y coordinate arrays are not "
+            "as expected. Could not write *.asc grid."
+        )
+    if z.shape != (y.size, x.size):
+        warnings.warn(
+            "Grid dimensions are not as expected. "
+            "Incorrect *.asc file generation may result.",
+            RuntimeWarning,
+        )
+    if np.amin(x) != x[0] or np.amin(y) != y[0]:
+        warnings.warn(
+            "Order of X or Y coordinates is not as expected. "
+            "Incorrect *.asc file generation may result.",
+            RuntimeWarning,
+        )
+
+    dx = abs(x[1] - x[0])
+    dy = abs(y[1] - y[0])
+    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
+        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    ):
+        raise ValueError(
+            "X or Y spacing is not constant; *.asc grid cannot be written."
+        )
+    cellsize = -1
+    if style == 2:
+        if dx != dy:
+            raise ValueError(
+                "X and Y spacing is not the same. "
+                "Cannot write *.asc file in the specified format."
+            )
+        cellsize = dx
+
+    xllcenter = x[0]
+    yllcenter = y[0]
+
+    # Note that these values are flagged as -1. If there is a problem in trying
+    # to write out style 2, the -1 value will appear in the output file.
+    xllcorner = -1
+    yllcorner = -1
+    if style == 2:
+        xllcorner = xllcenter - dx / 2.0
+        yllcorner = yllcenter - dy / 2.0
+
+    with io.open(filename, "w") as f:
+        if style == 1:
+            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
+            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
+            f.write("XLLCENTER      " + "{:<10}".format(xllcenter) + "\n")
+            f.write("YLLCENTER      " + "{:<10}".format(yllcenter) + "\n")
+            f.write("DX             " + "{:<10}".format(dx) + "\n")
+            f.write("DY             " + "{:<10}".format(dy) + "\n")
+            f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
+        elif style == 2:
+            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
+            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
+            f.write("XLLCORNER      " + "{:<10}".format(xllcorner) + "\n")
+            f.write("YLLCORNER      " + "{:<10}".format(yllcorner) + "\n")
+            f.write("CELLSIZE       " + "{:<10}".format(cellsize) + "\n")
+            f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
+        else:
+            raise ValueError("style kwarg must be either 1 or 2.")
+
+        for m in range(z.shape[0] - 1, -1, -1):
+            for n in range(z.shape[1]):
+                f.write("{:<16.2f}".format(z[m, n]))
+            if m != 0:
+                f.write("\n")
+
+
+def read_asc_grid(filename, footer=0):
+    r"""Reads ASCII grid file (\*.asc).
+
+    Parameters
+    ----------
+    filename : str
+        Name of \*.asc file.
+    footer : int, optional
+        Number of lines at bottom of \*.asc file to skip.
+
+    Returns
+    -------
+    grid_array : numpy array, shape (M, N)
+        (M, N) array of grid values, where M is number of Y-coordinates and
+        N is number of X-coordinates. The array entry corresponding to
+        the lower-left coordinates is at index [M, 0], so that
+        the array is oriented as it would be in X-Y space.
+    x : numpy array, shape (N,)
+        1D array of N X-coordinates.
+    y : numpy array, shape (M,)
+        1D array of M Y-coordinates.
+    CELLSIZE : tuple or float
+        Either a two-tuple of (x-cell size, y-cell size),
+        or a float that specifies the uniform cell size.
+    NODATA : float
+        Value that specifies which entries are not actual data.
+    """
+
+    ncols = None
+    nrows = None
+    xllcorner = None
+    xllcenter = None
+    yllcorner = None
+    yllcenter = None
+    cellsize = None
+    dx = None
+    dy = None
+    no_data = None
+    header_lines = 0
+    with io.open(filename, "r") as f:
+        while True:
+            string, value = f.readline().split()
+            header_lines += 1
+            if string.lower() == "ncols":
+                ncols = int(value)
+            elif string.lower() == "nrows":
+                nrows = int(value)
+            elif string.lower() == "xllcorner":
+                xllcorner = float(value)
+            elif string.lower() == "xllcenter":
+                xllcenter = float(value)
+            elif string.lower() == "yllcorner":
+                yllcorner = float(value)
+            elif string.lower() == "yllcenter":
+                yllcenter = float(value)
+            elif string.lower() == "cellsize":
+                cellsize = float(value)
+            elif string.lower() == "cell_size":
+                cellsize = float(value)
+            elif string.lower() == "dx":
+                dx = float(value)
+            elif string.lower() == "dy":
+                dy = float(value)
+            elif string.lower() == "nodata_value":
+                no_data = float(value)
+            elif string.lower() == "nodatavalue":
+                no_data = float(value)
+            else:
+                raise IOError("could not read *.asc file. Error in header.")
+
+            if (
+                (ncols is not None)
+                and (nrows is not None)
+                and (
+                    ((xllcorner is not None) and (yllcorner is not None))
+                    or ((xllcenter is not None) and (yllcenter is not None))
+                )
+                and ((cellsize is not None) or ((dx is not None) and (dy is not None)))
+                and (no_data is not None)
+            ):
+                break
+
+    raw_grid_array = np.genfromtxt(
+        filename, skip_header=header_lines, skip_footer=footer
+    )
+    grid_array = np.flipud(raw_grid_array)
+
+    if nrows != grid_array.shape[0] or ncols != grid_array.shape[1]:
+        raise IOError(
+            "Error reading *.asc file. Encountered problem "
+            "with header: NCOLS and/or NROWS does not match "
+            "number of columns/rows in data file body."
+        )
+
+    if xllcorner is not None and yllcorner is not None:
+        if dx is not None and dy is not None:
+            xllcenter = xllcorner + dx / 2.0
+            yllcenter = yllcorner + dy / 2.0
+        else:
+            xllcenter = xllcorner + cellsize / 2.0
+            yllcenter = yllcorner + cellsize / 2.0
+
+    if dx is not None and dy is not None:
+        x = np.arange(xllcenter, xllcenter + ncols * dx, dx)
+        y = np.arange(yllcenter, yllcenter + nrows * dy, dy)
+    else:
+        x = np.arange(xllcenter, xllcenter + ncols * cellsize, cellsize)
+        y = np.arange(yllcenter, yllcenter + nrows * cellsize, cellsize)
+
+    # Sometimes x and y and can be an entry too long due to imprecision
+    # in calculating the upper cutoff for np.arange(); this bit takes care of
+    # that potential problem.
+    if x.size == ncols + 1:
+        x = x[:-1]
+    if y.size == nrows + 1:
+        y = y[:-1]
+
+    if cellsize is None:
+        cellsize = (dx, dy)
+
+    return grid_array, x, y, cellsize, no_data
+
+
+def write_zmap_grid(
+    x, y, z, filename="output.zmap", no_data=-999.0, coord_sys="<null>"
+):
+    r"""Writes gridded data to ASCII grid file in zmap format (\*.zmap).
+
+    This is useful for exporting data to a GIS program, or Petrel
+    https://gdal.org/drivers/raster/zmap.html
+
+    Parameters
+    ----------
+    x : array_like, shape (N,) or (N, 1)
+        X-coordinates of grid points at center of cells.
+    y : array_like, shape (M,) or (M, 1)
+        Y-coordinates of grid points at center of cells.
+    z : array_like, shape (M, N)
+        Gridded data values. May be a masked array.
+    filename : string, optional
+        Name of output \*.zmap file. Default name is 'output.zmap'.
+    no_data : float, optional
+        no data value to be used
+    coord_sys : String, optional
+        coordinate sytem description
+    """
+
+    nodes_per_line = 5
+    field_width = 15
+
+    if np.ma.is_masked(z):
+        z = np.array(z.tolist(no_data))
+
+    x = np.squeeze(np.array(x))
+    y = np.squeeze(np.array(y))
+    z = np.squeeze(np.array(z))
+    nx = len(x)
+    ny = len(y)
+
+    dx = abs(x[1] - x[0])
+    dy = abs(y[1] - y[0])
+
+    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
+        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    ):
+        raise ValueError(
+            "X or Y spacing is not constant; *.asc grid cannot be written."
+        )
+
+    xllcenter = x[0]
+    yllcenter = y[0]
+
+    hix = xllcenter + (nx - 1) * dx
+    hiy = yllcenter + (ny - 1) * dy
+
+    now = datetime.datetime.now()
+
+    with io.open(filename, "w") as f:
+        f.write("!" + "\n")
+        f.write("!     ZIMS FILE NAME :  " + os.path.basename(filename) + "\n")
+        f.write(
+            "!     FORMATTED FILE CREATION DATE: " + now.strftime("%d/%m/%Y") + "\n"
+        )
+        f.write(
+            "!     FORMATTED FILE CREATION TIME: " + now.strftime("%H:%M:%S") + "\n"
+        )
+        f.write("!     COORDINATE REFERENCE SYSTEM: " + coord_sys + "\n")
+        f.write("!" + "\n")
+        f.write("@Grid HEADER, GRID, " + str(nodes_per_line) + "\n")
+        f.write(" " + str(field_width) + ", " + str(no_data) + ",  , 1 , 1" + "\n")
+        f.write(
+            "   "
+            + str(ny)
+            + ",  "
+            + str(nx)
+            + ",  "
+            + str(xllcenter)
+            + ",  "
+            + str(hix)
+            + ",  "
+            + str(yllcenter)
+            + ",  "
+            + str(hiy)
+            + "\n"
+        )
+        f.write("   " + str(dx) + ",  0.0,  0.0    " + "\n")
+        f.write("@" + "\n")
+
+        for n in range(z.shape[1]):
+            count = 0
+            for m in range(z.shape[0] - 1, -1, -1):
+                count += 1
+                if np.isnan(z[m, n]):
+                    f.write(space_back_to_front(format(no_data, "13.7E") + "  "))
+                else:
+                    if abs(z[m, n]) >= 1e100:  # one tailing space less
+                        f.write(space_back_to_front(format(z[m, n], "13.7E") + " "))
+                    elif abs(z[m, n]) >= 1e6:
+                        f.write(space_back_to_front(format(z[m, n], "13.7E") + "  "))
+                    else:
+                        f.write(space_back_to_front("{:<13.4f}".format(z[m, n]) + "  "))
+                if count % nodes_per_line == 0 or m == 0:
+                    f.write("\n")
+
+
+def read_zmap_grid(filename):
+    r"""Reads ASCII grid file in zmap format (\*.zmap).
+    https://gdal.org/drivers/raster/zmap.html
+
+    Parameters
+    ----------
+    filename : str
+        Name of \*.zmap file.
+
+    Returns
+    -------
+    grid_array : numpy array, shape (M, N)
+        (M, N) array of grid values, where M is number of Y-coordinates and
+        N is number of X-coordinates. The array entry corresponding to
+        the lower-left coordinates is at index [M, 0], so that
+        the array is oriented as it would be in X-Y space.
+    x : numpy array, shape (N,)
+        1D array of N X-coordinates.
+    y : numpy array, shape (M,)
+        1D array of M Y-coordinates.
+    cellsize : tuple or float
+        Either a two-tuple of (x-cell size, y-cell size),
+        or a float that specifies the uniform cell size.
+    no_data_value : float
+        Value that specifies which entries are not actual data.
+    coord_sys : String
+        Coordinate system name
+    """
+
+    no_data_value, nx, ny, originx, originy, maxx, maxy, dx, dy = (
+        0,
+        0,
+        0,
+        0,
+        0,
+        0,
+        0,
+        0,
+        0,
+    )
+    data_values = np.empty(1)
+    coord_sys = "<null>"
+
+    i_header_line, i_value = 0, 0
+    with io.open(filename, "r") as f:
+        while True:
+            line = f.readline()
+            if line.startswith("!"):
+                line_strings = line.split(":")
+                if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
+                    coord_sys = line_strings[1].replace("\n", "")
+            else:
+                line_strings = line.split()
+                line_strings = [string.replace(",", "") for string in line_strings]
+
+            if len(line_strings) == 0:
+                break
+
+            if i_header_line == -1 and not line_strings[0].startswith("!"):
+                for i_string in range(len(line_strings)):
+                    data_values[i_value] = float(line_strings[i_string])
+                    i_value += 1
+
+            if line_strings[0].startswith("@"):
+                if i_header_line == 0:
+                    i_header_line += 1
+                else:
+                    i_header_line = -1
+
+            if i_header_line > 0:
+                if i_header_line == 2:
+                    no_data_value = float(line_strings[1])
+                elif i_header_line == 3:
+                    ny = int(line_strings[0])
+                    nx = int(line_strings[1])
+                    originx = float(line_strings[2])
+                    maxx = float(line_strings[3])
+                    originy = float(line_strings[4])
+                    maxy = float(line_strings[5])
+                    data_values = np.empty(ny * nx)
+                i_header_line += 1
+
+    if nx * ny != len(data_values):
+        raise IOError(
+            "Error reading *.zmap file. Encountered problem "
+            "with header: (nx * ny) does not match with the "
+            "number items in data file body."
+        )
+
+    z = np.empty([ny, nx])
+    i_value = 0
+    for n in range(z.shape[1]):
+        for m in range(z.shape[0] - 1, -1, -1):
+            z[m, n] = data_values[i_value]
+            i_value += 1
+
+    dx = (maxx - originx) / (nx - 1)
+    dy = (maxy - originy) / (ny - 1)
+
+    gridx = np.arange(originx, originx + nx * dx, dx)
+    gridy = np.arange(originy, originy + ny * dy, dy)
+
+    cellsize = (dx, dy)
+
+    return z, gridx, gridy, cellsize, no_data_value, coord_sys
+
+
+def space_back_to_front(string):
+    net = string.replace(" ", "")
+    return "".join(string.rsplit(net)) + net
-- 
2.43.0


From 67386d70ac2473e0a4fa50980322b81c70881bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 11/53] fix: write_asc_grid wrote wide values without a
 separator

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 35693e4..f449f1c 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -122,7 +122,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
-                f.write("{:<16.2f}".format(z[m, n]))
+                f.write("{:<15.2f} ".format(z[m, n]))
             if m != 0:
                 f.write("\n")
 
-- 
2.43.0


From d2079618d2dab5f2e72db79edcf1999d7bd92e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 12/53] fix: grid writers accepted non-constant spacing

---
 src/pykrige/kriging_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index f449f1c..3238bfa 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -75,8 +75,8 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(
+        np.abs(np.diff(y)), dy
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
@@ -289,8 +289,8 @@ def write_zmap_grid(
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
 
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(
+        np.abs(np.diff(y)), dy
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
-- 
2.43.0


From a448b0793657b053741213adcf13c61cc153b9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 13/53] fix: read_zmap_grid could return one coordinate too
 many

---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 3238bfa..6947ad7 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -451,8 +451,8 @@ def read_zmap_grid(filename):
     dx = (maxx - originx) / (nx - 1)
     dy = (maxy - originy) / (ny - 1)
 
-    gridx = np.arange(originx, originx + nx * dx, dx)
-    gridy = np.arange(originy, originy + ny * dy, dy)
+    gridx = originx + np.arange(nx) * dx
+    gridy = originy + np.arange(ny) * dy
 
     cellsize = (dx, dy)
 
-- 
2.43.0


From 8179b27829ff4b20b0cfca6407ceeec3524e7a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 14/53] fix: read_zmap_grid returned uninitialized values for
 truncated files

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 6947ad7..6b4bed1 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -434,7 +434,7 @@ def read_zmap_grid(filename):
                     data_values = np.empty(ny * nx)
                 i_header_line += 1
 
-    if nx * ny != len(data_values):
+    if nx * ny != len(data_values) or i_value != len(data_values):
         raise IOError(
             "Error reading *.zmap file. Encountered problem "
             "with header: (nx * ny) does not match with the "
-- 
2.43.0


From 88b7299cae616cc0eda28cc797882eb8200c4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 15/53] fix: read_zmap_grid truncated coordinate system names
 containing a colon

---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 6b4bed1..3ab73bd 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -400,9 +400,9 @@ def read_zmap_grid(filename):
         while True:
             line = f.readline()
             if line.startswith("!"):
-                line_strings = line.split(":")
+                line_strings = line.split(":", 1)
                 if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
-                    coord_sys = line_strings[1].replace("\n", "")
+                    coord_sys = line_strings[1].strip()
             else:
                 line_strings = line.split()
                 line_strings = [string.replace(",", "") for string in line_strings]
-- 
2.43.0


From 3e833e81b64df62439b068d66eec677793c2abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 16/53] fix: default regression/classification models were
 shared between all instances

---
 src/pykrige/ck.py | 6 ++++--
 src/pykrige/rk.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index 4199c87..dfaccc2 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -18,7 +18,7 @@ class ClassificationKriging:
 
     Parameters
     ----------
-    classification_model: machine learning model instance from sklearn
+    classification_model: machine learning model instance from sklearn, SVC by default
     method: str, optional
         type of kriging to be performed
     variogram_model: str, optional
@@ -58,7 +58,7 @@ class ClassificationKriging:
 
     def __init__(
         self,
-        classification_model=SVC(),
+        classification_model=None,
         method="ordinary",
         variogram_model="linear",
         n_closest_points=10,
@@ -79,6 +79,8 @@ class ClassificationKriging:
         ext_drift_grid=(None, None, None),
         functional_drift=None,
     ):
+        if classification_model is None:
+            classification_model = SVC()
         check_sklearn_model(classification_model, task="classification")
         self.classification_model = classification_model
         self.n_closest_points = n_closest_points
diff --git a/src/pykrige/rk.py b/src/pykrige/rk.py
index 5feb97c..0e3ee88 100644
--- a/src/pykrige/rk.py
+++ b/src/pykrige/rk.py
@@ -17,7 +17,7 @@ class RegressionKriging:
 
     Parameters
     ----------
-    regression_model: machine learning model instance from sklearn
+    regression_model: machine learning model instance from sklearn, SVR by default
     method: str, optional
         type of kriging to be performed
     variogram_model: str, optional
@@ -57,7 +57,7 @@ class RegressionKriging:
 
     def __init__(
         self,
-        regression_model=SVR(),
+        regression_model=None,
         method="ordinary",
         variogram_model="linear",
         n_closest_points=10,
@@ -78,6 +78,8 @@ class RegressionKriging:
         ext_drift_grid=(None, None, None),
         functional_drift=None,
     ):
+        if regression_model is None:
+            regression_model = SVR()
         check_sklearn_model(regression_model)
         self.regression_model = regression_model
         self.n_closest_points = n_closest_points
-- 
2.43.0


From 5e9b020c3fc7e1119fc9f3714a3a8d9a6bef8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 17/53] fix: ClassificationKriging.predict returned class
 indices instead of labels

---
 src/pykrige/ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index dfaccc2..b6c75e8 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -169,7 +169,7 @@ class ClassificationKriging:
         pred_proba_ilr = self.krige_residual(x, **kwargs) + ml_pred_ilr
         pred_proba = inverse_ilr_transformation(pred_proba_ilr)
 
-        return np.argmax(pred_proba, axis=1)
+        return self.classes_[np.argmax(pred_proba, axis=1)]
 
     def krige_residual(self, x, **kwargs):
         """
-- 
2.43.0


From 4a7d4b94850b9e694ff92950d070446831674ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 18/53] fix: ClassificationKriging.fit rejected the documented
 1D target array

---
 src/pykrige/ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index b6c75e8..c7860e8 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -134,7 +134,7 @@ class ClassificationKriging:
         ml_pred_ilr = ilr_transformation(ml_pred)
 
         self.onehotencode = OneHotEncoder(categories=[self.classes_])
-        y_ohe = np.array(self.onehotencode.fit_transform(y).todense())
+        y_ohe = np.array(self.onehotencode.fit_transform(y.reshape(-1, 1)).todense())
         y_ohe_ilr = ilr_transformation(y_ohe)
 
         for i in range(len(self.classes_) - 1):
-- 
2.43.0


From 335b46c262e4651ddbd86bacb81d3919841f0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 19/53] fix: euclid3_to_great_circle modified its input and
 rejected scalars

---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 9e7c89d..af77cc9 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -113,7 +113,7 @@ def euclid3_to_great_circle(euclid3_distance):
         The corresponding great circle distance(s) between the points.
     """
     # Eliminate some possible numerical errors:
-    euclid3_distance[euclid3_distance > 2.0] = 2.0
+    euclid3_distance = np.minimum(euclid3_distance, 2.0)
     return 180.0 - 360.0 / np.pi * np.arccos(0.5 * euclid3_distance)
 
 
-- 
2.43.0


From 89173071ea93e2bf81d0d2e860c3147ae5fd4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 20/53] fix: a rejected update_variogram_model call left the
 model half updated

The new variogram function was kept with the old parameters, so a later
execute call silently used a mixture of both.
---
 src/pykrige/core.py | 19 +++++++++++++++++++
 src/pykrige/ok.py   |  2 ++
 src/pykrige/ok3d.py |  2 ++
 src/pykrige/uk.py   |  2 ++
 src/pykrige/uk3d.py |  2 ++
 5 files changed, 27 insertions(+)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index af77cc9..eec479d 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -22,6 +22,8 @@ References
 Copyright (c) 2015-2020, PyKrige Developers
 """
 
+from functools import wraps
+
 import numpy as np
 import scipy.linalg as spl
 from scipy.optimize import least_squares
@@ -33,6 +35,23 @@ eps = 1.0e-10  # Cutoff for comparison to zero
 P_INV = {"pinv": spl.pinv, "pinvh": spl.pinvh}
 
 
+def _restore_on_error(method):
+    """Decorator for methods that must not leave the object half changed
+    when they raise: attributes are reset to what they were at the call."""
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = self.__dict__.copy()
+        try:
+            return method(self, *args, **kwargs)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    return wrapper
+
+
 def great_circle_distance(lon1, lat1, lon2, lat2):
     """Calculate the great circle distance between one or multiple pairs of
     points given in spherical coordinates. Spherical coordinates are expected
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 1a6beab..1754459 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -35,6 +35,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -376,6 +377,7 @@ class OrdinaryKriging:
         else:
             self.delta, self.sigma, self.epsilon, self.Q1, self.Q2, self.cR = [None] * 6
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 8c8d886..a94c13e 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -34,6 +34,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -365,6 +366,7 @@ class OrdinaryKriging3D:
             print("Q2 =", self.Q2)
             print("cR =", self.cR, "\n")
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index acb6647..ca2590b 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -638,6 +639,7 @@ class UniversalKriging:
 
         return z_scalars
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index d25b2ca..c9fbb8e 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -449,6 +450,7 @@ class UniversalKriging3D:
         else:
             self.functional_drift = False
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
-- 
2.43.0


From 0ccb50cfe4c9bcd99ae8701e5ab85c4a0b946daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 21/53] fix: masked points outside the external drift grid made
 universal kriging fail

---
 src/pykrige/uk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index ca2590b..fa44b71 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -980,8 +980,9 @@ class UniversalKriging:
                 b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
                 i += 1
         if self.external_Z_drift:
-            b[:, i, 0] = self._calculate_data_point_zscalars(
-                xy_orig[:, 0], xy_orig[:, 1]
+            # masked points may well lie outside of the external drift grid
+            b[~mask, i, 0] = self._calculate_data_point_zscalars(
+                xy_orig[~mask, 0], xy_orig[~mask, 1]
             )
             i += 1
         if self.specified_drift:
-- 
2.43.0


From 7c66c756ec35670aa93e3ab7d11d0757b2437cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 22/53] fix: masks given as lists were rejected, integer masks
 not treated as boolean

---
 src/pykrige/ok.py   | 1 +
 src/pykrige/ok3d.py | 1 +
 src/pykrige/uk.py   | 1 +
 src/pykrige/uk3d.py | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 1754459..b7fd294 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -857,6 +857,7 @@ class OrdinaryKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index a94c13e..4a52f75 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -847,6 +847,7 @@ class OrdinaryKriging3D:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.ndim != 3:
                     raise ValueError("Mask is not three-dimensional.")
                 if mask.shape[0] != nz or mask.shape[1] != ny or mask.shape[2] != nx:
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index fa44b71..32b409b 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1206,6 +1206,7 @@ class UniversalKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index c9fbb8e..7800ad8 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -1002,6 +1002,7 @@ class UniversalKriging3D:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.ndim != 3:
                     raise ValueError("Mask is not three-dimensional.")
                 if mask.shape[0] != nz or mask.shape[1] != ny or mask.shape[2] != nx:
-- 
2.43.0


From 9213e379c62b73fac8d37fff93f9163766fd5dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 23/53] fix: documented forms of specified drift arrays (lists,
 (N, 1) arrays) were rejected

---
 src/pykrige/uk.py   | 3 +++
 src/pykrige/uk3d.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 32b409b..f0dd027 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1246,6 +1246,7 @@ class UniversalKriging:
                     "encapsulated in a list."
                 )
             for spec in specified_drift_arrays:
+                spec = np.asarray(spec)
                 if style in ["grid", "masked"]:
                     if spec.ndim < 2:
                         raise ValueError(
@@ -1264,6 +1265,8 @@ class UniversalKriging:
                     else:
                         spec_drift_grids.append(np.squeeze(spec))
                 elif style == "points":
+                    if spec.ndim == 2 and spec.shape[1] == 1:
+                        spec = spec[:, 0]
                     if spec.ndim != 1:
                         raise ValueError(
                             "Dimensions of drift values array do "
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 7800ad8..6d1e5f3 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -1049,6 +1049,7 @@ class UniversalKriging3D:
                     "be encapsulated in a list."
                 )
             for spec in specified_drift_arrays:
+                spec = np.asarray(spec)
                 if style in ["grid", "masked"]:
                     if spec.ndim < 3:
                         raise ValueError(
@@ -1075,6 +1076,8 @@ class UniversalKriging3D:
                     else:
                         spec_drift_grids.append(np.squeeze(spec))
                 elif style == "points":
+                    if spec.ndim == 2 and spec.shape[1] == 1:
+                        spec = spec[:, 0]
                     if spec.ndim != 1:
                         raise ValueError(
                             "Dimensions of drift values array do "
-- 
2.43.0


From 3eab93cc5c7e42c2517233f7c7ecb7c01435fb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 24/53] fix: don't keep a reference to the user's list of drift
 functions

---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index f0dd027..bb07a9f 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -506,7 +506,7 @@ class UniversalKriging:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 6d1e5f3..264f84b 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -446,7 +446,7 @@ class UniversalKriging3D:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
-- 
2.43.0


From e633eb18f72177a05aec3e8eaa51f0a4e9abbb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 25/53] fix: the largest distance was left out of the
 semivariogram of huge extents

---
 src/pykrige/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index eec479d..6895acf 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -479,14 +479,14 @@ def _initialize_variogram_model(
     # is appended to the list (instead of calculated as part of the
     # list comprehension) to avoid any numerical oddities
     # (specifically, say, ending up as 0.99999999999999 instead of 1.0).
-    # Appending dmax + 0.001 ensures that the largest distance value
-    # is included in the semivariogram calculation.
+    # Appending a value above dmax ensures that the largest distance value
+    # is included in the semivariogram calculation (dmax + 0.001 equals dmax
+    # for huge distances).
     dmax = np.amax(d)
     dmin = np.amin(d)
     dd = (dmax - dmin) / nlags
     bins = [dmin + n * dd for n in range(nlags)]
-    dmax += 0.001
-    bins.append(dmax)
+    bins.append(max(dmax + 0.001, np.nextafter(dmax, np.inf)))
 
     # This old binning method was experimental and doesn't seem
     # to work too well. Bins were computed such that there are more
-- 
2.43.0


From 471f4df6d270e410bedff72d39a518ea40a93f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 26/53] fix: spherical variogram of integer distances was
 truncated to integers

---
 src/pykrige/variogram_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pykrige/variogram_models.py b/src/pykrige/variogram_models.py
index a056bdf..9560de5 100755
--- a/src/pykrige/variogram_models.py
+++ b/src/pykrige/variogram_models.py
@@ -58,6 +58,7 @@ def spherical_variogram_model(m, d):
     psill = float(m[0])
     range_ = float(m[1])
     nugget = float(m[2])
+    d = np.asarray(d, dtype=float)  # piecewise returns the type of its argument
     return np.piecewise(
         d,
         [d <= range_, d > range_],
-- 
2.43.0


From 8bdb95dde01f81fffdba8a7eaf1a2ae72357aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 27/53] fix: automatic variogram fit stopped at its initial
 guess for small semivariances or badly scaled parameters

---
 src/pykrige/core.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 6895acf..ffd417a 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -598,6 +598,13 @@ def _variogram_residuals(params, x, y, variogram_function, weight):
     return resid
 
 
+def _soft_l1(z):
+    """The 'soft_l1' loss of scipy.optimize.least_squares (and its derivatives),
+    without the cancellation for small z."""
+    t = np.sqrt(1.0 + z)
+    return np.array([2.0 * z / (t + 1.0), 1.0 / t, -0.5 / t**3])
+
+
 def _calculate_variogram_model(
     lags, semivariance, variogram_model, variogram_function, weight
 ):
@@ -663,7 +670,11 @@ def _calculate_variogram_model(
         _variogram_residuals,
         x0,
         bounds=bnds,
-        loss="soft_l1",
+        loss=_soft_l1,
+        # the tolerance on the gradient is absolute: the fit would stop at the
+        # initial guess if the semivariances are small
+        gtol=None,
+        x_scale="jac",
         args=(lags, semivariance, variogram_function, weight),
     )
 
-- 
2.43.0


From 5f1c46396073719153ed493cf9952bd25f884527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 28/53] fix: write_asc_grid style 2 rejected equal spacings
 that differ by rounding

---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 3ab73bd..e8768f3 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -83,7 +83,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         )
     cellsize = -1
     if style == 2:
-        if dx != dy:
+        if not np.isclose(dx, dy):
             raise ValueError(
                 "X and Y spacing is not the same. "
                 "Cannot write *.asc file in the specified format."
-- 
2.43.0


From b98bd965f56233e632876a55839827bbbb203c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 29/53] fix: read_asc_grid failed for grids with a single row
 or column

---
 src/pykrige/kriging_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index e8768f3..0c98a4e 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -212,6 +212,8 @@ def read_asc_grid(filename, footer=0):
     raw_grid_array = np.genfromtxt(
         filename, skip_header=header_lines, skip_footer=footer
     )
+    if raw_grid_array.ndim < 2:  # a single row or column (or a single value)
+        raw_grid_array = raw_grid_array.reshape((1, -1) if nrows == 1 else (-1, 1))
     grid_array = np.flipud(raw_grid_array)
 
     if nrows != grid_array.shape[0] or ncols != grid_array.shape[1]:
-- 
2.43.0


From fb52589988f32d00881af6efc639d1aa8d504057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 30/53] fix: masked integer grids were written with a truncated
 no-data value

---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 0c98a4e..ca58e57 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -45,7 +45,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
     """
 
     if np.ma.is_masked(z):
-        z = np.array(z.tolist(no_data))
+        z = z.astype(float).filled(no_data)
 
     x = np.squeeze(np.array(x))
     y = np.squeeze(np.array(y))
@@ -280,7 +280,7 @@ def write_zmap_grid(
     field_width = 15
 
     if np.ma.is_masked(z):
-        z = np.array(z.tolist(no_data))
+        z = z.astype(float).filled(no_data)
 
     x = np.squeeze(np.array(x))
     y = np.squeeze(np.array(y))
-- 
2.43.0


From 012d4210ca1126c29f3cc08f011f62d1a50115b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 31/53] fix: external drift grids given as lists were rejected

---
 src/pykrige/uk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index bb07a9f..1c0c153 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -415,6 +415,9 @@ class UniversalKriging:
             if external_drift_x is None or external_drift_y is None:
                 raise ValueError("Must specify coordinates of external Z drift terms.")
             self.external_Z_drift = True
+            external_drift = np.asarray(external_drift)
+            external_drift_x = np.asarray(external_drift_x)
+            external_drift_y = np.asarray(external_drift_y)
             if (
                 external_drift.shape[0] != external_drift_y.shape[0]
                 or external_drift.shape[1] != external_drift_x.shape[0]
-- 
2.43.0


From 56c50b06514b77089b82006fd6439b5a6b9a8b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 32/53] fix: large log-ratios overflowed in
 inverse_ilr_transformation and gave arbitrary labels

---
 src/pykrige/ck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index c7860e8..9739f0e 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -290,4 +290,7 @@ def inverse_ilr_transformation(data):
         DOI: 10.1002/9781119003144
     """
 
-    return closure(np.exp(np.einsum("ij,jk->ik", data, -helmert(data.shape[1] + 1))))
+    clr = np.einsum("ij,jk->ik", data, -helmert(data.shape[1] + 1))
+    # a common factor is removed by the closure; this one prevents an overflow
+    clr = clr - np.max(clr, axis=1)[:, np.newaxis]
+    return closure(np.exp(clr))
-- 
2.43.0


From 2fee8b88bc6d23f93e17bdf79adcbf7dd238e396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 33/53] fix: the moving window ignored the pseudo-inverse
 setting and failed on repeated locations

---
 src/pykrige/lib/cok.pyx | 43 +++++++++++++++++++++++++++--------------
 src/pykrige/ok.py       |  5 ++++-
 src/pykrige/ok3d.py     |  5 ++++-
 3 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index e202340..4ea41fb 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -122,9 +122,18 @@ cpdef _c_exec_loop_moving_window(
     cdef int nb, nrhs=1, info
     cdef int [::1] ipiv = np.zeros(n_max+1, dtype='int32')
     cdef long [::1] bd_idx_sel
+    cdef bint pseudo_inv = pars['pseudo_inv']
 
     nb = n + 1
 
+    if pseudo_inv:
+        if pars['pseudo_inv_type'] == "pinv":
+            p_inv = scipy.linalg.pinv
+        elif pars['pseudo_inv_type'] == "pinvh":
+            p_inv = scipy.linalg.pinvh
+        else:
+            raise ValueError('Unknown pseudo inverse method selected.')
+
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
     cdef double [::1] variogram_model_parameters = np.asarray(
@@ -166,21 +175,25 @@ cpdef _c_exec_loop_moving_window(
         # a2D = a_selection.base[:nb*nb].reshape((nb, nb))
         # x = scipy.linalg.solve(a2D, b.base[:nb])
 
-        dgesv(
-                &nb,
-                &nrhs,
-                &(a_selection[0]),
-                &nb,
-                &(ipiv[0]),
-                &(x[0]),
-                &nb,
-                &info
-                )
-
-        if info > 0:
-            raise ValueError('Singular matrix')
-        elif info < 0:
-            raise ValueError('Wrong arguments')
+        if pseudo_inv:
+            a_sel = a_selection.base[:nb*nb].reshape((nb, nb))
+            x = p_inv(a_sel).dot(b.base[:nb])
+        else:
+            dgesv(
+                    &nb,
+                    &nrhs,
+                    &(a_selection[0]),
+                    &nb,
+                    &(ipiv[0]),
+                    &(x[0]),
+                    &nb,
+                    &info
+                    )
+
+            if info > 0:
+                raise ValueError('Singular matrix')
+            elif info < 0:
+                raise ValueError('Wrong arguments')
 
         z_tmp = 0.0
         ss_tmp = 0.0
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index b7fd294..e98e92a 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -752,7 +752,10 @@ class OrdinaryKriging:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            if self.pseudo_inv:
+                x = P_INV[self.pseudo_inv_type](a).dot(b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 4a52f75..ad98d5c 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -727,7 +727,10 @@ class OrdinaryKriging3D:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            if self.pseudo_inv:
+                x = P_INV[self.pseudo_inv_type](a).dot(b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             kvalues[i] = x[:n, 0].dot(self.VALUES[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
-- 
2.43.0


From 6621c70cb58492adaddc27e428669814c2c6c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 34/53] fix: external drift grids of narrow number types were
 interpolated in that type

---
 src/pykrige/uk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 1c0c153..59d9de9 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -415,9 +415,9 @@ class UniversalKriging:
             if external_drift_x is None or external_drift_y is None:
                 raise ValueError("Must specify coordinates of external Z drift terms.")
             self.external_Z_drift = True
-            external_drift = np.asarray(external_drift)
-            external_drift_x = np.asarray(external_drift_x)
-            external_drift_y = np.asarray(external_drift_y)
+            external_drift = np.asarray(external_drift, dtype=np.float64)
+            external_drift_x = np.asarray(external_drift_x, dtype=np.float64)
+            external_drift_y = np.asarray(external_drift_y, dtype=np.float64)
             if (
                 external_drift.shape[0] != external_drift_y.shape[0]
                 or external_drift.shape[1] != external_drift_x.shape[0]
-- 
2.43.0


From d401d1e3b048272005b0ef5405e8803e061d9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:17 +0000
Subject: [PATCH 35/53] fix: GSTools models of more than three dimensions and
 spatio-temporal latlon models were accepted

---
 src/pykrige/ok.py   | 4 ++--
 src/pykrige/ok3d.py | 8 ++++++--
 src/pykrige/uk.py   | 4 ++--
 src/pykrige/uk3d.py | 8 ++++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index e98e92a..f19136b 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -226,7 +226,7 @@ class OrdinaryKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim not in (1, 2):
                 raise ValueError("GSTools: model dim is not 1 or 2")
             # check if coordinate types match
             if self.model.latlon and (self.coordinates_type == "euclidean"):
@@ -433,7 +433,7 @@ class OrdinaryKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim not in (1, 2):
                 raise ValueError("GSTools: model dim is not 1 or 2")
             # check if coordinate types match
             if self.model.latlon and (self.coordinates_type == "euclidean"):
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index ad98d5c..9bb2f7d 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -237,8 +237,10 @@ class OrdinaryKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported for 3D kriging")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
@@ -435,8 +437,10 @@ class OrdinaryKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported for 3D kriging")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 59d9de9..ffbdd27 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -270,7 +270,7 @@ class UniversalKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim not in (1, 2):
                 raise ValueError("GSTools: model dim is not 1 or 2")
             if self.model.latlon:
                 raise ValueError(
@@ -695,7 +695,7 @@ class UniversalKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim not in (1, 2):
                 raise ValueError("GSTools: model dim is not 1 or 2")
             if self.model.latlon:
                 raise ValueError(
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 264f84b..fa9b184 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -265,8 +265,10 @@ class UniversalKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported for 3D kriging")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
@@ -520,8 +522,10 @@ class UniversalKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported for 3D kriging")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
-- 
2.43.0


From fcf17f6d52da76a650978d5fb2b335bc4ae48cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 36/53] fix: compiled power model failed silently for
 non-finite distances, results of another point were returned

---
 src/pykrige/lib/variogram_models.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/lib/variogram_models.pyx b/src/pykrige/lib/variogram_models.pyx
index fb821c2..b3475d6 100644
--- a/src/pykrige/lib/variogram_models.pyx
+++ b/src/pykrige/lib/variogram_models.pyx
@@ -1,5 +1,5 @@
 # cython: language_level=3, boundscheck=False, wraparound=False, cdivision=True
-from libc.math cimport exp
+from libc.math cimport exp, pow
 
 
 # copied from variogram_model.py
@@ -42,7 +42,7 @@ cdef void _c_power_variogram_model(
     b = params[1]
     c = params[2]
     for k in range(n):
-        out[k] = a*(dist[k]**b) + c
+        out[k] = a*pow(dist[k], b) + c
 
 
 cdef void _c_gaussian_variogram_model(
-- 
2.43.0


From cb1e5a729f691ab2a1324fca2e78b0185d2850c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 37/53] fix: moving window read outside its arrays when data
 points were at infinite distance

---
 src/pykrige/ok.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index f19136b..69d56e2 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -972,6 +972,9 @@ class OrdinaryKriging:
 
             tree = cKDTree(xy_data)
             bd, bd_idx = tree.query(xy_points, k=n_closest_points, eps=0.0)
+            if np.any(bd_idx[~mask] >= n):
+                # the tree marks neighbors at infinite distance this way
+                raise ValueError("Too few data points within finite distance.")
 
             if self.coordinates_type == "geographic":
                 # Between the nearest neighbours from Euclidean search,
-- 
2.43.0


From b05f0b91caf88de71a0cf23f284b8bae158f965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 38/53] fix: restore the CRLF line endings of ok.py, uk.py and
 kriging_tools.py

Earlier fixes had converted these files; this brings the difference back to the lines they repair.
---
 src/pykrige/kriging_tools.py |  932 ++++++------
 src/pykrige/ok.py            | 2074 +++++++++++++-------------
 src/pykrige/uk.py            | 2702 +++++++++++++++++-----------------
 3 files changed, 2854 insertions(+), 2854 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index ca58e57..84a74b5 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -1,466 +1,466 @@
-# coding: utf-8
-"""
-PyKrige
-=======
-
-Code by Benjamin S. Murphy and the PyKrige Developers
-bscott.murphy@gmail.com
-
-Summary
--------
-Methods for reading/writing ASCII grid files.
-
-Copyright (c) 2015-2020, PyKrige Developers
-"""
-import datetime
-import io
-import os
-import warnings
-
-import numpy as np
-
-
-def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
-    r"""Writes gridded data to ASCII grid file (\*.asc).
-
-    This is useful for exporting data to a GIS program.
-
-    Parameters
-    ----------
-    x : array_like, shape (N,) or (N, 1)
-        X-coordinates of grid points at center of cells.
-    y : array_like, shape (M,) or (M, 1)
-        Y-coordinates of grid points at center of cells.
-    z : array_like, shape (M, N)
-        Gridded data values. May be a masked array.
-    filename : string, optional
-        Name of output \*.asc file. Default name is 'output.asc'.
-    no_data : float, optional
-        no data value to be used
-    style : int, optional
-        Determines how to write the \*.asc file header.
-        Specifying 1 writes out DX, DY, XLLCENTER, YLLCENTER.
-        Specifying 2 writes out CELLSIZE (note DX must be the same as DY),
-        XLLCORNER, YLLCORNER. Default is 1.
-    """
-
-    if np.ma.is_masked(z):
-        z = z.astype(float).filled(no_data)
-
-    x = np.squeeze(np.array(x))
-    y = np.squeeze(np.array(y))
-    z = np.squeeze(np.array(z))
-    nrows = z.shape[0]
-    ncols = z.shape[1]
-
-    if z.ndim != 2:
-        raise ValueError("Two-dimensional grid is required to write *.asc grid.")
-    if x.ndim > 1 or y.ndim > 1:
-        raise ValueError(
-            "Dimensions of X and/or Y coordinate arrays are not "
-            "as expected. Could not write *.asc grid."
-        )
-    if z.shape != (y.size, x.size):
-        warnings.warn(
-            "Grid dimensions are not as expected. "
-            "Incorrect *.asc file generation may result.",
-            RuntimeWarning,
-        )
-    if np.amin(x) != x[0] or np.amin(y) != y[0]:
-        warnings.warn(
-            "Order of X or Y coordinates is not as expected. "
-            "Incorrect *.asc file generation may result.",
-            RuntimeWarning,
-        )
-
-    dx = abs(x[1] - x[0])
-    dy = abs(y[1] - y[0])
-    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(
-        np.abs(np.diff(y)), dy
-    ):
-        raise ValueError(
-            "X or Y spacing is not constant; *.asc grid cannot be written."
-        )
-    cellsize = -1
-    if style == 2:
-        if not np.isclose(dx, dy):
-            raise ValueError(
-                "X and Y spacing is not the same. "
-                "Cannot write *.asc file in the specified format."
-            )
-        cellsize = dx
-
-    xllcenter = x[0]
-    yllcenter = y[0]
-
-    # Note that these values are flagged as -1. If there is a problem in trying
-    # to write out style 2, the -1 value will appear in the output file.
-    xllcorner = -1
-    yllcorner = -1
-    if style == 2:
-        xllcorner = xllcenter - dx / 2.0
-        yllcorner = yllcenter - dy / 2.0
-
-    with io.open(filename, "w") as f:
-        if style == 1:
-            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
-            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
-            f.write("XLLCENTER      " + "{:<10}".format(xllcenter) + "\n")
-            f.write("YLLCENTER      " + "{:<10}".format(yllcenter) + "\n")
-            f.write("DX             " + "{:<10}".format(dx) + "\n")
-            f.write("DY             " + "{:<10}".format(dy) + "\n")
-            f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
-        elif style == 2:
-            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
-            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
-            f.write("XLLCORNER      " + "{:<10}".format(xllcorner) + "\n")
-            f.write("YLLCORNER      " + "{:<10}".format(yllcorner) + "\n")
-            f.write("CELLSIZE       " + "{:<10}".format(cellsize) + "\n")
-            f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
-        else:
-            raise ValueError("style kwarg must be either 1 or 2.")
-
-        for m in range(z.shape[0] - 1, -1, -1):
-            for n in range(z.shape[1]):
-                f.write("{:<15.2f} ".format(z[m, n]))
-            if m != 0:
-                f.write("\n")
-
-
-def read_asc_grid(filename, footer=0):
-    r"""Reads ASCII grid file (\*.asc).
-
-    Parameters
-    ----------
-    filename : str
-        Name of \*.asc file.
-    footer : int, optional
-        Number of lines at bottom of \*.asc file to skip.
-
-    Returns
-    -------
-    grid_array : numpy array, shape (M, N)
-        (M, N) array of grid values, where M is number of Y-coordinates and
-        N is number of X-coordinates. The array entry corresponding to
-        the lower-left coordinates is at index [M, 0], so that
-        the array is oriented as it would be in X-Y space.
-    x : numpy array, shape (N,)
-        1D array of N X-coordinates.
-    y : numpy array, shape (M,)
-        1D array of M Y-coordinates.
-    CELLSIZE : tuple or float
-        Either a two-tuple of (x-cell size, y-cell size),
-        or a float that specifies the uniform cell size.
-    NODATA : float
-        Value that specifies which entries are not actual data.
-    """
-
-    ncols = None
-    nrows = None
-    xllcorner = None
-    xllcenter = None
-    yllcorner = None
-    yllcenter = None
-    cellsize = None
-    dx = None
-    dy = None
-    no_data = None
-    header_lines = 0
-    with io.open(filename, "r") as f:
-        while True:
-            string, value = f.readline().split()
-            header_lines += 1
-            if string.lower() == "ncols":
-                ncols = int(value)
-            elif string.lower() == "nrows":
-                nrows = int(value)
-            elif string.lower() == "xllcorner":
-                xllcorner = float(value)
-            elif string.lower() == "xllcenter":
-                xllcenter = float(value)
-            elif string.lower() == "yllcorner":
-                yllcorner = float(value)
-            elif string.lower() == "yllcenter":
-                yllcenter = float(value)
-            elif string.lower() == "cellsize":
-                cellsize = float(value)
-            elif string.lower() == "cell_size":
-                cellsize = float(value)
-            elif string.lower() == "dx":
-                dx = float(value)
-            elif string.lower() == "dy":
-                dy = float(value)
-            elif string.lower() == "nodata_value":
-                no_data = float(value)
-            elif string.lower() == "nodatavalue":
-                no_data = float(value)
-            else:
-                raise IOError("could not read *.asc file. Error in header.")
-
-            if (
-                (ncols is not None)
-                and (nrows is not None)
-                and (
-                    ((xllcorner is not None) and (yllcorner is not None))
-                    or ((xllcenter is not None) and (yllcenter is not None))
-                )
-                and ((cellsize is not None) or ((dx is not None) and (dy is not None)))
-                and (no_data is not None)
-            ):
-                break
-
-    raw_grid_array = np.genfromtxt(
-        filename, skip_header=header_lines, skip_footer=footer
-    )
-    if raw_grid_array.ndim < 2:  # a single row or column (or a single value)
-        raw_grid_array = raw_grid_array.reshape((1, -1) if nrows == 1 else (-1, 1))
-    grid_array = np.flipud(raw_grid_array)
-
-    if nrows != grid_array.shape[0] or ncols != grid_array.shape[1]:
-        raise IOError(
-            "Error reading *.asc file. Encountered problem "
-            "with header: NCOLS and/or NROWS does not match "
-            "number of columns/rows in data file body."
-        )
-
-    if xllcorner is not None and yllcorner is not None:
-        if dx is not None and dy is not None:
-            xllcenter = xllcorner + dx / 2.0
-            yllcenter = yllcorner + dy / 2.0
-        else:
-            xllcenter = xllcorner + cellsize / 2.0
-            yllcenter = yllcorner + cellsize / 2.0
-
-    if dx is not None and dy is not None:
-        x = np.arange(xllcenter, xllcenter + ncols * dx, dx)
-        y = np.arange(yllcenter, yllcenter + nrows * dy, dy)
-    else:
-        x = np.arange(xllcenter, xllcenter + ncols * cellsize, cellsize)
-        y = np.arange(yllcenter, yllcenter + nrows * cellsize, cellsize)
-
-    # Sometimes x and y and can be an entry too long due to imprecision
-    # in calculating the upper cutoff for np.arange(); this bit takes care of
-    # that potential problem.
-    if x.size == ncols + 1:
-        x = x[:-1]
-    if y.size == nrows + 1:
-        y = y[:-1]
-
-    if cellsize is None:
-        cellsize = (dx, dy)
-
-    return grid_array, x, y, cellsize, no_data
-
-
-def write_zmap_grid(
-    x, y, z, filename="output.zmap", no_data=-999.0, coord_sys="<null>"
-):
-    r"""Writes gridded data to ASCII grid file in zmap format (\*.zmap).
-
-    This is useful for exporting data to a GIS program, or Petrel
-    https://gdal.org/drivers/raster/zmap.html
-
-    Parameters
-    ----------
-    x : array_like, shape (N,) or (N, 1)
-        X-coordinates of grid points at center of cells.
-    y : array_like, shape (M,) or (M, 1)
-        Y-coordinates of grid points at center of cells.
-    z : array_like, shape (M, N)
-        Gridded data values. May be a masked array.
-    filename : string, optional
-        Name of output \*.zmap file. Default name is 'output.zmap'.
-    no_data : float, optional
-        no data value to be used
-    coord_sys : String, optional
-        coordinate sytem description
-    """
-
-    nodes_per_line = 5
-    field_width = 15
-
-    if np.ma.is_masked(z):
-        z = z.astype(float).filled(no_data)
-
-    x = np.squeeze(np.array(x))
-    y = np.squeeze(np.array(y))
-    z = np.squeeze(np.array(z))
-    nx = len(x)
-    ny = len(y)
-
-    dx = abs(x[1] - x[0])
-    dy = abs(y[1] - y[0])
-
-    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(
-        np.abs(np.diff(y)), dy
-    ):
-        raise ValueError(
-            "X or Y spacing is not constant; *.asc grid cannot be written."
-        )
-
-    xllcenter = x[0]
-    yllcenter = y[0]
-
-    hix = xllcenter + (nx - 1) * dx
-    hiy = yllcenter + (ny - 1) * dy
-
-    now = datetime.datetime.now()
-
-    with io.open(filename, "w") as f:
-        f.write("!" + "\n")
-        f.write("!     ZIMS FILE NAME :  " + os.path.basename(filename) + "\n")
-        f.write(
-            "!     FORMATTED FILE CREATION DATE: " + now.strftime("%d/%m/%Y") + "\n"
-        )
-        f.write(
-            "!     FORMATTED FILE CREATION TIME: " + now.strftime("%H:%M:%S") + "\n"
-        )
-        f.write("!     COORDINATE REFERENCE SYSTEM: " + coord_sys + "\n")
-        f.write("!" + "\n")
-        f.write("@Grid HEADER, GRID, " + str(nodes_per_line) + "\n")
-        f.write(" " + str(field_width) + ", " + str(no_data) + ",  , 1 , 1" + "\n")
-        f.write(
-            "   "
-            + str(ny)
-            + ",  "
-            + str(nx)
-            + ",  "
-            + str(xllcenter)
-            + ",  "
-            + str(hix)
-            + ",  "
-            + str(yllcenter)
-            + ",  "
-            + str(hiy)
-            + "\n"
-        )
-        f.write("   " + str(dx) + ",  0.0,  0.0    " + "\n")
-        f.write("@" + "\n")
-
-        for n in range(z.shape[1]):
-            count = 0
-            for m in range(z.shape[0] - 1, -1, -1):
-                count += 1
-                if np.isnan(z[m, n]):
-                    f.write(space_back_to_front(format(no_data, "13.7E") + "  "))
-                else:
-                    if abs(z[m, n]) >= 1e100:  # one tailing space less
-                        f.write(space_back_to_front(format(z[m, n], "13.7E") + " "))
-                    elif abs(z[m, n]) >= 1e6:
-                        f.write(space_back_to_front(format(z[m, n], "13.7E") + "  "))
-                    else:
-                        f.write(space_back_to_front("{:<13.4f}".format(z[m, n]) + "  "))
-                if count % nodes_per_line == 0 or m == 0:
-                    f.write("\n")
-
-
-def read_zmap_grid(filename):
-    r"""Reads ASCII grid file in zmap format (\*.zmap).
-    https://gdal.org/drivers/raster/zmap.html
-
-    Parameters
-    ----------
-    filename : str
-        Name of \*.zmap file.
-
-    Returns
-    -------
-    grid_array : numpy array, shape (M, N)
-        (M, N) array of grid values, where M is number of Y-coordinates and
-        N is number of X-coordinates. The array entry corresponding to
-        the lower-left coordinates is at index [M, 0], so that
-        the array is oriented as it would be in X-Y space.
-    x : numpy array, shape (N,)
-        1D array of N X-coordinates.
-    y : numpy array, shape (M,)
-        1D array of M Y-coordinates.
-    cellsize : tuple or float
-        Either a two-tuple of (x-cell size, y-cell size),
-        or a float that specifies the uniform cell size.
-    no_data_value : float
-        Value that specifies which entries are not actual data.
-    coord_sys : String
-        Coordinate system name
-    """
-
-    no_data_value, nx, ny, originx, originy, maxx, maxy, dx, dy = (
-        0,
-        0,
-        0,
-        0,
-        0,
-        0,
-        0,
-        0,
-        0,
-    )
-    data_values = np.empty(1)
-    coord_sys = "<null>"
-
-    i_header_line, i_value = 0, 0
-    with io.open(filename, "r") as f:
-        while True:
-            line = f.readline()
-            if line.startswith("!"):
-                line_strings = line.split(":", 1)
-                if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
-                    coord_sys = line_strings[1].strip()
-            else:
-                line_strings = line.split()
-                line_strings = [string.replace(",", "") for string in line_strings]
-
-            if len(line_strings) == 0:
-                break
-
-            if i_header_line == -1 and not line_strings[0].startswith("!"):
-                for i_string in range(len(line_strings)):
-                    data_values[i_value] = float(line_strings[i_string])
-                    i_value += 1
-
-            if line_strings[0].startswith("@"):
-                if i_header_line == 0:
-                    i_header_line += 1
-                else:
-                    i_header_line = -1
-
-            if i_header_line > 0:
-                if i_header_line == 2:
-                    no_data_value = float(line_strings[1])
-                elif i_header_line == 3:
-                    ny = int(line_strings[0])
-                    nx = int(line_strings[1])
-                    originx = float(line_strings[2])
-                    maxx = float(line_strings[3])
-                    originy = float(line_strings[4])
-                    maxy = float(line_strings[5])
-                    data_values = np.empty(ny * nx)
-                i_header_line += 1
-
-    if nx * ny != len(data_values) or i_value != len(data_values):
-        raise IOError(
-            "Error reading *.zmap file. Encountered problem "
-            "with header: (nx * ny) does not match with the "
-            "number items in data file body."
-        )
-
-    z = np.empty([ny, nx])
-    i_value = 0
-    for n in range(z.shape[1]):
-        for m in range(z.shape[0] - 1, -1, -1):
-            z[m, n] = data_values[i_value]
-            i_value += 1
-
-    dx = (maxx - originx) / (nx - 1)
-    dy = (maxy - originy) / (ny - 1)
-
-    gridx = originx + np.arange(nx) * dx
-    gridy = originy + np.arange(ny) * dy
-
-    cellsize = (dx, dy)
-
-    return z, gridx, gridy, cellsize, no_data_value, coord_sys
-
-
-def space_back_to_front(string):
-    net = string.replace(" ", "")
-    return "".join(string.rsplit(net)) + net
+# coding: utf-8
+"""
+PyKrige
+=======
+
+Code by Benjamin S. Murphy and the PyKrige Developers
+bscott.murphy@gmail.com
+
+Summary
+-------
+Methods for reading/writing ASCII grid files.
+
+Copyright (c) 2015-2020, PyKrige Developers
+"""
+import datetime
+import io
+import os
+import warnings
+
+import numpy as np
+
+
+def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
+    r"""Writes gridded data to ASCII grid file (\*.asc).
+
+    This is useful for exporting data to a GIS program.
+
+    Parameters
+    ----------
+    x : array_like, shape (N,) or (N, 1)
+        X-coordinates of grid points at center of cells.
+    y : array_like, shape (M,) or (M, 1)
+        Y-coordinates of grid points at center of cells.
+    z : array_like, shape (M, N)
+        Gridded data values. May be a masked array.
+    filename : string, optional
+        Name of output \*.asc file. Default name is 'output.asc'.
+    no_data : float, optional
+        no data value to be used
+    style : int, optional
+        Determines how to write the \*.asc file header.
+        Specifying 1 writes out DX, DY, XLLCENTER, YLLCENTER.
+        Specifying 2 writes out CELLSIZE (note DX must be the same as DY),
+        XLLCORNER, YLLCORNER. Default is 1.
+    """
+
+    if np.ma.is_masked(z):
+        z = z.astype(float).filled(no_data)
+
+    x = np.squeeze(np.array(x))
+    y = np.squeeze(np.array(y))
+    z = np.squeeze(np.array(z))
+    nrows = z.shape[0]
+    ncols = z.shape[1]
+
+    if z.ndim != 2:
+        raise ValueError("Two-dimensional grid is required to write *.asc grid.")
+    if x.ndim > 1 or y.ndim > 1:
+        raise ValueError(
+            "Dimensions of X and/or Y coordinate arrays are not "
+            "as expected. Could not write *.asc grid."
+        )
+    if z.shape != (y.size, x.size):
+        warnings.warn(
+            "Grid dimensions are not as expected. "
+            "Incorrect *.asc file generation may result.",
+            RuntimeWarning,
+        )
+    if np.amin(x) != x[0] or np.amin(y) != y[0]:
+        warnings.warn(
+            "Order of X or Y coordinates is not as expected. "
+            "Incorrect *.asc file generation may result.",
+            RuntimeWarning,
+        )
+
+    dx = abs(x[1] - x[0])
+    dy = abs(y[1] - y[0])
+    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(
+        np.abs(np.diff(y)), dy
+    ):
+        raise ValueError(
+            "X or Y spacing is not constant; *.asc grid cannot be written."
+        )
+    cellsize = -1
+    if style == 2:
+        if not np.isclose(dx, dy):
+            raise ValueError(
+                "X and Y spacing is not the same. "
+                "Cannot write *.asc file in the specified format."
+            )
+        cellsize = dx
+
+    xllcenter = x[0]
+    yllcenter = y[0]
+
+    # Note that these values are flagged as -1. If there is a problem in trying
+    # to write out style 2, the -1 value will appear in the output file.
+    xllcorner = -1
+    yllcorner = -1
+    if style == 2:
+        xllcorner = xllcenter - dx / 2.0
+        yllcorner = yllcenter - dy / 2.0
+
+    with io.open(filename, "w") as f:
+        if style == 1:
+            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
+            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
+            f.write("XLLCENTER      " + "{:<10}".format(xllcenter) + "\n")
+            f.write("YLLCENTER      " + "{:<10}".format(yllcenter) + "\n")
+            f.write("DX             " + "{:<10}".format(dx) + "\n")
+            f.write("DY             " + "{:<10}".format(dy) + "\n")
+            f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
+        elif style == 2:
+            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
+            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
+            f.write("XLLCORNER      " + "{:<10}".format(xllcorner) + "\n")
+            f.write("YLLCORNER      " + "{:<10}".format(yllcorner) + "\n")
+            f.write("CELLSIZE       " + "{:<10}".format(cellsize) + "\n")
+            f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
+        else:
+            raise ValueError("style kwarg must be either 1 or 2.")
+
+        for m in range(z.shape[0] - 1, -1, -1):
+            for n in range(z.shape[1]):
+                f.write("{:<15.2f} ".format(z[m, n]))
+            if m != 0:
+                f.write("\n")
+
+
+def read_asc_grid(filename, footer=0):
+    r"""Reads ASCII grid file (\*.asc).
+
+    Parameters
+    ----------
+    filename : str
+        Name of \*.asc file.
+    footer : int, optional
+        Number of lines at bottom of \*.asc file to skip.
+
+    Returns
+    -------
+    grid_array : numpy array, shape (M, N)
+        (M, N) array of grid values, where M is number of Y-coordinates and
+        N is number of X-coordinates. The array entry corresponding to
+        the lower-left coordinates is at index [M, 0], so that
+        the array is oriented as it would be in X-Y space.
+    x : numpy array, shape (N,)
+        1D array of N X-coordinates.
+    y : numpy array, shape (M,)
+        1D array of M Y-coordinates.
+    CELLSIZE : tuple or float
+        Either a two-tuple of (x-cell size, y-cell size),
+        or a float that specifies the uniform cell size.
+    NODATA : float
+        Value that specifies which entries are not actual data.
+    """
+
+    ncols = None
+    nrows = None
+    xllcorner = None
+    xllcenter = None
+    yllcorner = None
+    yllcenter = None
+    cellsize = None
+    dx = None
+    dy = None
+    no_data = None
+    header_lines = 0
+    with io.open(filename, "r") as f:
+        while True:
+            string, value = f.readline().split()
+            header_lines += 1
+            if string.lower() == "ncols":
+                ncols = int(value)
+            elif string.lower() == "nrows":
+                nrows = int(value)
+            elif string.lower() == "xllcorner":
+                xllcorner = float(value)
+            elif string.lower() == "xllcenter":
+                xllcenter = float(value)
+            elif string.lower() == "yllcorner":
+                yllcorner = float(value)
+            elif string.lower() == "yllcenter":
+                yllcenter = float(value)
+            elif string.lower() == "cellsize":
+                cellsize = float(value)
+            elif string.lower() == "cell_size":
+                cellsize = float(value)
+            elif string.lower() == "dx":
+                dx = float(value)
+            elif string.lower() == "dy":
+                dy = float(value)
+            elif string.lower() == "nodata_value":
+                no_data = float(value)
+            elif string.lower() == "nodatavalue":
+                no_data = float(value)
+            else:
+                raise IOError("could not read *.asc file. Error in header.")
+
+            if (
+                (ncols is not None)
+                and (nrows is not None)
+                and (
+                    ((xllcorner is not None) and (yllcorner is not None))
+                    or ((xllcenter is not None) and (yllcenter is not None))
+                )
+                and ((cellsize is not None) or ((dx is not None) and (dy is not None)))
+                and (no_data is not None)
+            ):
+                break
+
+    raw_grid_array = np.genfromtxt(
+        filename, skip_header=header_lines, skip_footer=footer
+    )
+    if raw_grid_array.ndim < 2:  # a single row or column (or a single value)
+        raw_grid_array = raw_grid_array.reshape((1, -1) if nrows == 1 else (-1, 1))
+    grid_array = np.flipud(raw_grid_array)
+
+    if nrows != grid_array.shape[0] or ncols != grid_array.shape[1]:
+        raise IOError(
+            "Error reading *.asc file. Encountered problem "
+            "with header: NCOLS and/or NROWS does not match "
+            "number of columns/rows in data file body."
+        )
+
+    if xllcorner is not None and yllcorner is not None:
+        if dx is not None and dy is not None:
+            xllcenter = xllcorner + dx / 2.0
+            yllcenter = yllcorner + dy / 2.0
+        else:
+            xllcenter = xllcorner + cellsize / 2.0
+            yllcenter = yllcorner + cellsize / 2.0
+
+    if dx is not None and dy is not None:
+        x = np.arange(xllcenter, xllcenter + ncols * dx, dx)
+        y = np.arange(yllcenter, yllcenter + nrows * dy, dy)
+    else:
+        x = np.arange(xllcenter, xllcenter + ncols * cellsize, cellsize)
+        y = np.arange(yllcenter, yllcenter + nrows * cellsize, cellsize)
+
+    # Sometimes x and y and can be an entry too long due to imprecision
+    # in calculating the upper cutoff for np.arange(); this bit takes care of
+    # that potential problem.
+    if x.size == ncols + 1:
+        x = x[:-1]
+    if y.size == nrows + 1:
+        y = y[:-1]
+
+    if cellsize is None:
+        cellsize = (dx, dy)
+
+    return grid_array, x, y, cellsize, no_data
+
+
+def write_zmap_grid(
+    x, y, z, filename="output.zmap", no_data=-999.0, coord_sys="<null>"
+):
+    r"""Writes gridded data to ASCII grid file in zmap format (\*.zmap).
+
+    This is useful for exporting data to a GIS program, or Petrel
+    https://gdal.org/drivers/raster/zmap.html
+
+    Parameters
+    ----------
+    x : array_like, shape (N,) or (N, 1)
+        X-coordinates of grid points at center of cells.
+    y : array_like, shape (M,) or (M, 1)
+        Y-coordinates of grid points at center of cells.
+    z : array_like, shape (M, N)
+        Gridded data values. May be a masked array.
+    filename : string, optional
+        Name of output \*.zmap file. Default name is 'output.zmap'.
+    no_data : float, optional
+        no data value to be used
+    coord_sys : String, optional
+        coordinate sytem description
+    """
+
+    nodes_per_line = 5
+    field_width = 15
+
+    if np.ma.is_masked(z):
+        z = z.astype(float).filled(no_data)
+
+    x = np.squeeze(np.array(x))
+    y = np.squeeze(np.array(y))
+    z = np.squeeze(np.array(z))
+    nx = len(x)
+    ny = len(y)
+
+    dx = abs(x[1] - x[0])
+    dy = abs(y[1] - y[0])
+
+    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(
+        np.abs(np.diff(y)), dy
+    ):
+        raise ValueError(
+            "X or Y spacing is not constant; *.asc grid cannot be written."
+        )
+
+    xllcenter = x[0]
+    yllcenter = y[0]
+
+    hix = xllcenter + (nx - 1) * dx
+    hiy = yllcenter + (ny - 1) * dy
+
+    now = datetime.datetime.now()
+
+    with io.open(filename, "w") as f:
+        f.write("!" + "\n")
+        f.write("!     ZIMS FILE NAME :  " + os.path.basename(filename) + "\n")
+        f.write(
+            "!     FORMATTED FILE CREATION DATE: " + now.strftime("%d/%m/%Y") + "\n"
+        )
+        f.write(
+            "!     FORMATTED FILE CREATION TIME: " + now.strftime("%H:%M:%S") + "\n"
+        )
+        f.write("!     COORDINATE REFERENCE SYSTEM: " + coord_sys + "\n")
+        f.write("!" + "\n")
+        f.write("@Grid HEADER, GRID, " + str(nodes_per_line) + "\n")
+        f.write(" " + str(field_width) + ", " + str(no_data) + ",  , 1 , 1" + "\n")
+        f.write(
+            "   "
+            + str(ny)
+            + ",  "
+            + str(nx)
+            + ",  "
+            + str(xllcenter)
+            + ",  "
+            + str(hix)
+            + ",  "
+            + str(yllcenter)
+            + ",  "
+            + str(hiy)
+            + "\n"
+        )
+        f.write("   " + str(dx) + ",  0.0,  0.0    " + "\n")
+        f.write("@" + "\n")
+
+        for n in range(z.shape[1]):
+            count = 0
+            for m in range(z.shape[0] - 1, -1, -1):
+                count += 1
+                if np.isnan(z[m, n]):
+                    f.write(space_back_to_front(format(no_data, "13.7E") + "  "))
+                else:
+                    if abs(z[m, n]) >= 1e100:  # one tailing space less
+                        f.write(space_back_to_front(format(z[m, n], "13.7E") + " "))
+                    elif abs(z[m, n]) >= 1e6:
+                        f.write(space_back_to_front(format(z[m, n], "13.7E") + "  "))
+                    else:
+                        f.write(space_back_to_front("{:<13.4f}".format(z[m, n]) + "  "))
+                if count % nodes_per_line == 0 or m == 0:
+                    f.write("\n")
+
+
+def read_zmap_grid(filename):
+    r"""Reads ASCII grid file in zmap format (\*.zmap).
+    https://gdal.org/drivers/raster/zmap.html
+
+    Parameters
+    ----------
+    filename : str
+        Name of \*.zmap file.
+
+    Returns
+    -------
+    grid_array : numpy array, shape (M, N)
+        (M, N) array of grid values, where M is number of Y-coordinates and
+        N is number of X-coordinates. The array entry corresponding to
+        the lower-left coordinates is at index [M, 0], so that
+        the array is oriented as it would be in X-Y space.
+    x : numpy array, shape (N,)
+        1D array of N X-coordinates.
+    y : numpy array, shape (M,)
+        1D array of M Y-coordinates.
+    cellsize : tuple or float
+        Either a two-tuple of (x-cell size, y-cell size),
+        or a float that specifies the uniform cell size.
+    no_data_value : float
+        Value that specifies which entries are not actual data.
+    coord_sys : String
+        Coordinate system name
+    """
+
+    no_data_value, nx, ny, originx, originy, maxx, maxy, dx, dy = (
+        0,
+        0,
+        0,
+        0,
+        0,
+        0,
+        0,
+        0,
+        0,
+    )
+    data_values = np.empty(1)
+    coord_sys = "<null>"
+
+    i_header_line, i_value = 0, 0
+    with io.open(filename, "r") as f:
+        while True:
+            line = f.readline()
+            if line.startswith("!"):
+                line_strings = line.split(":", 1)
+                if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
+                    coord_sys = line_strings[1].strip()
+            else:
+                line_strings = line.split()
+                line_strings = [string.replace(",", "") for string in line_strings]
+
+            if len(line_strings) == 0:
+                break
+
+            if i_header_line == -1 and not line_strings[0].startswith("!"):
+                for i_string in range(len(line_strings)):
+                    data_values[i_value] = float(line_strings[i_string])
+                    i_value += 1
+
+            if line_strings[0].startswith("@"):
+                if i_header_line == 0:
+                    i_header_line += 1
+                else:
+                    i_header_line = -1
+
+            if i_header_line > 0:
+                if i_header_line == 2:
+                    no_data_value = float(line_strings[1])
+                elif i_header_line == 3:
+                    ny = int(line_strings[0])
+                    nx = int(line_strings[1])
+                    originx = float(line_strings[2])
+                    maxx = float(line_strings[3])
+                    originy = float(line_strings[4])
+                    maxy = float(line_strings[5])
+                    data_values = np.empty(ny * nx)
+                i_header_line += 1
+
+    if nx * ny != len(data_values) or i_value != len(data_values):
+        raise IOError(
+            "Error reading *.zmap file. Encountered problem "
+            "with header: (nx * ny) does not match with the "
+            "number items in data file body."
+        )
+
+    z = np.empty([ny, nx])
+    i_value = 0
+    for n in range(z.shape[1]):
+        for m in range(z.shape[0] - 1, -1, -1):
+            z[m, n] = data_values[i_value]
+            i_value += 1
+
+    dx = (maxx - originx) / (nx - 1)
+    dy = (maxy - originy) / (ny - 1)
+
+    gridx = originx + np.arange(nx) * dx
+    gridy = originy + np.arange(ny) * dy
+
+    cellsize = (dx, dy)
+
+    return z, gridx, gridy, cellsize, no_data_value, coord_sys
+
+
+def space_back_to_front(string):
+    net = string.replace(" ", "")
+    return "".join(string.rsplit(net)) + net
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 69d56e2..35af3b9 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -1,1037 +1,1037 @@
-# coding: utf-8
-"""
-PyKrige
-=======
-
-Code by Benjamin S. Murphy and the PyKrige Developers
-bscott.murphy@gmail.com
-
-Summary
--------
-Contains class OrdinaryKriging, which provides easy access to
-2D Ordinary Kriging.
-
-References
-----------
-.. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
-    Hydrogeology, (Cambridge University Press, 1997) 272 p.
-.. [2] N. Cressie, Statistics for spatial data,
-   (Wiley Series in Probability and Statistics, 1993) 137 p.
-
-Copyright (c) 2015-2020, PyKrige Developers
-"""
-
-import warnings
-
-import numpy as np
-import scipy.linalg
-from scipy.spatial.distance import cdist
-
-from . import core, variogram_models
-from .compat_gstools import validate_gstools
-from .core import (
-    P_INV,
-    _adjust_for_anisotropy,
-    _find_statistics,
-    _initialize_variogram_model,
-    _make_variogram_parameter_list,
-    _restore_on_error,
-)
-
-
-class OrdinaryKriging:
-    r"""Convenience class for easy access to 2D Ordinary Kriging.
-
-    Parameters
-    ----------
-    x : array_like
-        X-coordinates of data points.
-    y : array_like
-        Y-coordinates of data points.
-    z : array-like
-        Values at data points.
-    variogram_model : str or GSTools CovModel, optional
-        Specifies which variogram model to use; may be one of the following:
-        linear, power, gaussian, spherical, exponential, hole-effect.
-        Default is linear variogram model. To utilize a custom variogram model,
-        specify 'custom'; you must also provide variogram_parameters and
-        variogram_function. Note that the hole-effect model is only technically
-        correct for one-dimensional problems.
-        You can also use a
-        `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
-    variogram_parameters : list or dict, optional
-        Parameters that define the specified variogram model. If not provided,
-        parameters will be automatically calculated using a "soft" L1 norm
-        minimization scheme. For variogram model parameters provided in a dict,
-        the required dict keys vary according to the specified variogram
-        model: ::
-
-           # linear
-               {'slope': slope, 'nugget': nugget}
-           # power
-               {'scale': scale, 'exponent': exponent, 'nugget': nugget}
-           # gaussian, spherical, exponential and hole-effect:
-               {'sill': s, 'range': r, 'nugget': n}
-               # OR
-               {'psill': p, 'range': r, 'nugget': n}
-
-        Note that either the full sill or the partial sill
-        (psill = sill - nugget) can be specified in the dict.
-        For variogram model parameters provided in a list, the entries
-        must be as follows: ::
-
-           # linear
-               [slope, nugget]
-           # power
-               [scale, exponent, nugget]
-           # gaussian, spherical, exponential and hole-effect:
-               [sill, range, nugget]
-
-        Note that the full sill (NOT the partial sill) must be specified
-        in the list format.
-        For a custom variogram model, the parameters are required, as custom
-        variogram models will not automatically be fit to the data.
-        Furthermore, the parameters must be specified in list format, in the
-        order in which they are used in the callable function (see
-        variogram_function for more information). The code does not check
-        that the provided list contains the appropriate number of parameters
-        for the custom variogram model, so an incorrect parameter list in
-        such a case will probably trigger an esoteric exception someplace
-        deep in the code.
-        NOTE that, while the list format expects the full sill, the code
-        itself works internally with the partial sill.
-    variogram_function : callable, optional
-        A callable function that must be provided if variogram_model is
-        specified as 'custom'. The function must take only two arguments:
-        first, a list of parameters for the variogram model; second, the
-        distances at which to calculate the variogram model. The list
-        provided in variogram_parameters will be passed to the function
-        as the first argument.
-    nlags : int, optional
-        Number of averaging bins for the semivariogram. Default is 6.
-    weight : bool, optional
-        Flag that specifies if semivariance at smaller lags should be weighted
-        more heavily when automatically calculating variogram model.
-        The routine is currently hard-coded such that the weights are
-        calculated from a logistic function, so weights at small lags are ~1
-        and weights at the longest lags are ~0; the center of the logistic
-        weighting is hard-coded to be at 70% of the distance from the shortest
-        lag to the largest lag. Setting this parameter to True indicates that
-        weights will be applied. Default is False. (Kitanidis suggests that the
-        values at smaller lags are more important in fitting a variogram model,
-        so the option is provided to enable such weighting.)
-    anisotropy_scaling : float, optional
-        Scalar stretching value to take into account anisotropy.
-        Default is 1 (effectively no stretching).
-        Scaling is applied in the y-direction in the rotated data frame
-        (i.e., after adjusting for the anisotropy_angle, if anisotropy_angle
-        is not 0). This parameter has no effect if coordinate_types is
-        set to 'geographic'.
-    anisotropy_angle : float, optional
-        CCW angle (in degrees) by which to rotate coordinate system in
-        order to take into account anisotropy. Default is 0 (no rotation).
-        Note that the coordinate system is rotated. This parameter has
-        no effect if coordinate_types is set to 'geographic'.
-    verbose : bool, optional
-        Enables program text output to monitor kriging process.
-        Default is False (off).
-    enable_plotting : bool, optional
-        Enables plotting to display variogram. Default is False (off).
-    enable_statistics : bool, optional
-        Default is False
-    coordinates_type : str, optional
-        One of 'euclidean' or 'geographic'. Determines if the x and y
-        coordinates are interpreted as on a plane ('euclidean') or as
-        coordinates on a sphere ('geographic'). In case of geographic
-        coordinates, x is interpreted as longitude and y as latitude
-        coordinates, both given in degree. Longitudes are expected in
-        [0, 360] and latitudes in [-90, 90]. Default is 'euclidean'.
-    exact_values : bool, optional
-        If True, interpolation provides input values at input locations.
-        If False, interpolation accounts for variance/nugget within input
-        values at input locations and does not behave as an
-        exact-interpolator [2]. Note that this only has an effect if
-        there is variance/nugget present within the input data since it is
-        interpreted as measurement error. If the nugget is zero, the kriged
-        field will behave as an exact interpolator.
-    pseudo_inv : :class:`bool`, optional
-        Whether the kriging system is solved with the pseudo inverted
-        kriging matrix. If `True`, this leads to more numerical stability
-        and redundant points are averaged. But it can take more time.
-        Default: False
-    pseudo_inv_type : :class:`str`, optional
-        Here you can select the algorithm to compute the pseudo-inverse matrix:
-
-            * `"pinv"`: use `pinv` from `scipy` which uses `lstsq`
-            * `"pinvh"`: use `pinvh` from `scipy` which uses eigen-values
-
-        Default: `"pinv"`
-
-    References
-    ----------
-    .. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
-       Hydrogeology, (Cambridge University Press, 1997) 272 p.
-    .. [2] N. Cressie, Statistics for spatial data,
-       (Wiley Series in Probability and Statistics, 1993) 137 p.
-    """
-
-    eps = 1.0e-10  # Cutoff for comparison to zero
-    variogram_dict = {
-        "linear": variogram_models.linear_variogram_model,
-        "power": variogram_models.power_variogram_model,
-        "gaussian": variogram_models.gaussian_variogram_model,
-        "spherical": variogram_models.spherical_variogram_model,
-        "exponential": variogram_models.exponential_variogram_model,
-        "hole-effect": variogram_models.hole_effect_variogram_model,
-    }
-
-    def __init__(
-        self,
-        x,
-        y,
-        z,
-        variogram_model="linear",
-        variogram_parameters=None,
-        variogram_function=None,
-        nlags=6,
-        weight=False,
-        anisotropy_scaling=1.0,
-        anisotropy_angle=0.0,
-        verbose=False,
-        enable_plotting=False,
-        enable_statistics=False,
-        coordinates_type="euclidean",
-        exact_values=True,
-        pseudo_inv=False,
-        pseudo_inv_type="pinv",
-    ):
-        # config the pseudo inverse
-        self.pseudo_inv = bool(pseudo_inv)
-        self.pseudo_inv_type = str(pseudo_inv_type)
-        if self.pseudo_inv_type not in P_INV:
-            raise ValueError("pseudo inv type not valid: " + str(pseudo_inv_type))
-
-        # set up variogram model and parameters...
-        self.variogram_model = variogram_model
-        self.model = None
-
-        if not isinstance(exact_values, bool):
-            raise ValueError("exact_values has to be boolean True or False")
-        self.exact_values = exact_values
-
-        self.coordinates_type = coordinates_type
-
-        # check if a GSTools covariance model is given
-        if hasattr(self.variogram_model, "pykrige_kwargs"):
-            # save the model in the class
-            self.model = self.variogram_model
-            validate_gstools(self.model)
-            if self.model.field_dim not in (1, 2):
-                raise ValueError("GSTools: model dim is not 1 or 2")
-            # check if coordinate types match
-            if self.model.latlon and (self.coordinates_type == "euclidean"):
-                raise ValueError(
-                    "GSTools: latlon models require geographic coordinates"
-                )
-            self.variogram_model = "custom"
-            variogram_function = self.model.pykrige_vario
-            variogram_parameters = []
-            anisotropy_scaling = self.model.pykrige_anis
-            anisotropy_angle = self.model.pykrige_angle
-        if (
-            self.variogram_model not in self.variogram_dict.keys()
-            and self.variogram_model != "custom"
-        ):
-            raise ValueError(
-                "Specified variogram model '%s' is not supported." % variogram_model
-            )
-        elif self.variogram_model == "custom":
-            if variogram_function is None or not callable(variogram_function):
-                raise ValueError(
-                    "Must specify callable function for custom variogram model."
-                )
-            else:
-                self.variogram_function = variogram_function
-        else:
-            self.variogram_function = self.variogram_dict[self.variogram_model]
-
-        # Code assumes 1D input arrays of floats. Ensures that any extraneous
-        # dimensions don't get in the way. Copies are created to avoid any
-        # problems with referencing the original passed arguments.
-        # Also, values are forced to be float... in the future, might be worth
-        # developing complex-number kriging (useful for vector field kriging)
-        self.X_ORIG = np.atleast_1d(
-            np.squeeze(np.array(x, copy=True, dtype=np.float64))
-        )
-        self.Y_ORIG = np.atleast_1d(
-            np.squeeze(np.array(y, copy=True, dtype=np.float64))
-        )
-        self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))
-
-        self.verbose = verbose
-        self.enable_plotting = enable_plotting
-        if self.enable_plotting and self.verbose:
-            print("Plotting Enabled\n")
-
-        # adjust for anisotropy... only implemented for euclidean (rectangular)
-        # coordinates, as anisotropy is ambiguous for geographic coordinates...
-        if self.coordinates_type == "euclidean":
-            self.XCENTER = (np.amax(self.X_ORIG) + np.amin(self.X_ORIG)) / 2.0
-            self.YCENTER = (np.amax(self.Y_ORIG) + np.amin(self.Y_ORIG)) / 2.0
-            self.anisotropy_scaling = anisotropy_scaling
-            self.anisotropy_angle = anisotropy_angle
-            if self.verbose:
-                print("Adjusting data for anisotropy...")
-            self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
-                np.vstack((self.X_ORIG, self.Y_ORIG)).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
-            ).T
-        elif self.coordinates_type == "geographic":
-            # Leave everything as is in geographic case.
-            # May be open to discussion?
-            if anisotropy_scaling != 1.0:
-                warnings.warn(
-                    "Anisotropy is not compatible with geographic "
-                    "coordinates. Ignoring user set anisotropy.",
-                    UserWarning,
-                )
-            self.XCENTER = 0.0
-            self.YCENTER = 0.0
-            self.anisotropy_scaling = 1.0
-            self.anisotropy_angle = 0.0
-            self.X_ADJUSTED = self.X_ORIG
-            self.Y_ADJUSTED = self.Y_ORIG
-        else:
-            raise ValueError(
-                "Only 'euclidean' and 'geographic' are valid "
-                "values for coordinates-keyword."
-            )
-
-        if self.verbose:
-            print("Initializing variogram model...")
-
-        vp_temp = _make_variogram_parameter_list(
-            self.variogram_model, variogram_parameters
-        )
-        (
-            self.lags,
-            self.semivariance,
-            self.variogram_model_parameters,
-        ) = _initialize_variogram_model(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_model,
-            vp_temp,
-            self.variogram_function,
-            nlags,
-            weight,
-            self.coordinates_type,
-        )
-
-        if self.verbose:
-            print("Coordinates type: '%s'" % self.coordinates_type, "\n")
-            if self.variogram_model == "linear":
-                print("Using '%s' Variogram Model" % "linear")
-                print("Slope:", self.variogram_model_parameters[0])
-                print("Nugget:", self.variogram_model_parameters[1], "\n")
-            elif self.variogram_model == "power":
-                print("Using '%s' Variogram Model" % "power")
-                print("Scale:", self.variogram_model_parameters[0])
-                print("Exponent:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-            elif self.variogram_model == "custom":
-                print("Using Custom Variogram Model")
-            else:
-                print("Using '%s' Variogram Model" % self.variogram_model)
-                print("Partial Sill:", self.variogram_model_parameters[0])
-                print(
-                    "Full Sill:",
-                    self.variogram_model_parameters[0]
-                    + self.variogram_model_parameters[2],
-                )
-                print("Range:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-        if self.enable_plotting:
-            self.display_variogram_model()
-
-        if self.verbose:
-            print("Calculating statistics on variogram model fit...")
-        if enable_statistics:
-            self.delta, self.sigma, self.epsilon = _find_statistics(
-                np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-                self.Z,
-                self.variogram_function,
-                self.variogram_model_parameters,
-                self.coordinates_type,
-                self.pseudo_inv,
-            )
-            self.Q1 = core.calcQ1(self.epsilon)
-            self.Q2 = core.calcQ2(self.epsilon)
-            self.cR = core.calc_cR(self.Q2, self.sigma)
-            if self.verbose:
-                print("Q1 =", self.Q1)
-                print("Q2 =", self.Q2)
-                print("cR =", self.cR, "\n")
-        else:
-            self.delta, self.sigma, self.epsilon, self.Q1, self.Q2, self.cR = [None] * 6
-
-    @_restore_on_error
-    def update_variogram_model(
-        self,
-        variogram_model,
-        variogram_parameters=None,
-        variogram_function=None,
-        nlags=6,
-        weight=False,
-        anisotropy_scaling=1.0,
-        anisotropy_angle=0.0,
-    ):
-        """Allows user to update variogram type and/or
-        variogram model parameters.
-
-        Parameters
-        __________
-        variogram_model : str or GSTools CovModel
-            May be any of the variogram models listed
-            above. May also be 'custom', in which case variogram_parameters
-            and variogram_function must be specified.
-            You can also use a
-            `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
-        variogram_parameters : list or dict, optional
-            List or dict of
-            variogram model parameters, as explained above. If not provided,
-            a best fit model will be calculated as described above.
-        variogram_function : callable, optional
-            A callable function that must
-            be provided if variogram_model is specified as 'custom'.
-            See above for more information.
-        nlags : int, optional
-            Number of averaging bins for the semivariogram.
-            Default is 6.
-        weight : boolean, optional
-            Flag that specifies if semivariance at
-            smaller lags should be weighted more heavily when automatically
-            calculating the variogram model. See above for more information.
-            True indicates that weights will be applied. Default is False.
-        anisotropy_scaling : float, optional
-            Scalar stretching value to
-            take into account anisotropy. Default is 1 (effectively no
-            stretching). Scaling is applied in the y-direction.
-        anisotropy_angle : float, optional
-            CCW angle (in degrees) by
-            which to rotate coordinate system in order to take into
-            account anisotropy. Default is 0 (no rotation).
-        """
-
-        # set up variogram model and parameters...
-        self.variogram_model = variogram_model
-        self.model = None
-        # check if a GSTools covariance model is given
-        if hasattr(self.variogram_model, "pykrige_kwargs"):
-            # save the model in the class
-            self.model = self.variogram_model
-            validate_gstools(self.model)
-            if self.model.field_dim not in (1, 2):
-                raise ValueError("GSTools: model dim is not 1 or 2")
-            # check if coordinate types match
-            if self.model.latlon and (self.coordinates_type == "euclidean"):
-                raise ValueError(
-                    "GSTools: latlon models require geographic coordinates"
-                )
-            self.variogram_model = "custom"
-            variogram_function = self.model.pykrige_vario
-            variogram_parameters = []
-            anisotropy_scaling = self.model.pykrige_anis
-            anisotropy_angle = self.model.pykrige_angle
-        if (
-            self.variogram_model not in self.variogram_dict.keys()
-            and self.variogram_model != "custom"
-        ):
-            raise ValueError(
-                "Specified variogram model '%s' is not supported." % variogram_model
-            )
-        elif self.variogram_model == "custom":
-            if variogram_function is None or not callable(variogram_function):
-                raise ValueError(
-                    "Must specify callable function for custom variogram model."
-                )
-            else:
-                self.variogram_function = variogram_function
-        else:
-            self.variogram_function = self.variogram_dict[self.variogram_model]
-
-        if (
-            anisotropy_scaling != self.anisotropy_scaling
-            or anisotropy_angle != self.anisotropy_angle
-        ):
-            if self.coordinates_type == "euclidean":
-                if self.verbose:
-                    print("Adjusting data for anisotropy...")
-                self.anisotropy_scaling = anisotropy_scaling
-                self.anisotropy_angle = anisotropy_angle
-                self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
-                    np.vstack((self.X_ORIG, self.Y_ORIG)).T,
-                    [self.XCENTER, self.YCENTER],
-                    [self.anisotropy_scaling],
-                    [self.anisotropy_angle],
-                ).T
-            elif self.coordinates_type == "geographic":
-                if anisotropy_scaling != 1.0:
-                    warnings.warn(
-                        "Anisotropy is not compatible with geographic"
-                        " coordinates. Ignoring user set anisotropy.",
-                        UserWarning,
-                    )
-                self.anisotropy_scaling = 1.0
-                self.anisotropy_angle = 0.0
-                self.X_ADJUSTED = self.X_ORIG
-                self.Y_ADJUSTED = self.Y_ORIG
-        if self.verbose:
-            print("Updating variogram mode...")
-
-        # See note above about the 'use_psill' kwarg...
-        vp_temp = _make_variogram_parameter_list(
-            self.variogram_model, variogram_parameters
-        )
-        (
-            self.lags,
-            self.semivariance,
-            self.variogram_model_parameters,
-        ) = _initialize_variogram_model(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_model,
-            vp_temp,
-            self.variogram_function,
-            nlags,
-            weight,
-            self.coordinates_type,
-        )
-
-        if self.verbose:
-            print("Coordinates type: '%s'" % self.coordinates_type, "\n")
-            if self.variogram_model == "linear":
-                print("Using '%s' Variogram Model" % "linear")
-                print("Slope:", self.variogram_model_parameters[0])
-                print("Nugget:", self.variogram_model_parameters[1], "\n")
-            elif self.variogram_model == "power":
-                print("Using '%s' Variogram Model" % "power")
-                print("Scale:", self.variogram_model_parameters[0])
-                print("Exponent:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-            elif self.variogram_model == "custom":
-                print("Using Custom Variogram Model")
-            else:
-                print("Using '%s' Variogram Model" % self.variogram_model)
-                print("Partial Sill:", self.variogram_model_parameters[0])
-                print(
-                    "Full Sill:",
-                    self.variogram_model_parameters[0]
-                    + self.variogram_model_parameters[2],
-                )
-                print("Range:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-        if self.enable_plotting:
-            self.display_variogram_model()
-
-        if self.verbose:
-            print("Calculating statistics on variogram model fit...")
-        self.delta, self.sigma, self.epsilon = _find_statistics(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_function,
-            self.variogram_model_parameters,
-            self.coordinates_type,
-            self.pseudo_inv,
-        )
-        self.Q1 = core.calcQ1(self.epsilon)
-        self.Q2 = core.calcQ2(self.epsilon)
-        self.cR = core.calc_cR(self.Q2, self.sigma)
-        if self.verbose:
-            print("Q1 =", self.Q1)
-            print("Q2 =", self.Q2)
-            print("cR =", self.cR, "\n")
-
-    def display_variogram_model(self):
-        """Displays variogram model with the actual binned data."""
-        import matplotlib.pyplot as plt
-
-        fig = plt.figure()
-        ax = fig.add_subplot(111)
-        ax.plot(self.lags, self.semivariance, "r*")
-        ax.plot(
-            self.lags,
-            self.variogram_function(self.variogram_model_parameters, self.lags),
-            "k-",
-        )
-        plt.show()
-
-    def get_variogram_points(self):
-        """Returns both the lags and the variogram function evaluated at each
-        of them.
-
-        The evaluation of the variogram function and the lags are produced
-        internally. This method is convenient when the user wants to access to
-        the lags and the resulting variogram (according to the model provided)
-        for further analysis.
-
-        Returns
-        -------
-        (tuple) tuple containing:
-            lags (array) - the lags at which the variogram was evaluated
-            variogram (array) - the variogram function evaluated at the lags
-        """
-        return (
-            self.lags,
-            self.variogram_function(self.variogram_model_parameters, self.lags),
-        )
-
-    def switch_verbose(self):
-        """Allows user to switch code talk-back on/off. Takes no arguments."""
-        self.verbose = not self.verbose
-
-    def switch_plotting(self):
-        """Allows user to switch plot display on/off. Takes no arguments."""
-        self.enable_plotting = not self.enable_plotting
-
-    def get_epsilon_residuals(self):
-        """Returns the epsilon residuals for the variogram fit."""
-        return self.epsilon
-
-    def plot_epsilon_residuals(self):
-        """Plots the epsilon residuals for the variogram fit."""
-        import matplotlib.pyplot as plt
-
-        fig = plt.figure()
-        ax = fig.add_subplot(111)
-        ax.scatter(range(self.epsilon.size), self.epsilon, c="k", marker="*")
-        ax.axhline(y=0.0)
-        plt.show()
-
-    def get_statistics(self):
-        """Returns the Q1, Q2, and cR statistics for the variogram fit
-        (in that order). No arguments.
-        """
-        return self.Q1, self.Q2, self.cR
-
-    def print_statistics(self):
-        """Prints out the Q1, Q2, and cR statistics for the variogram fit.
-        NOTE that ideally Q1 is close to zero, Q2 is close to 1,
-        and cR is as small as possible.
-        """
-        print("Q1 =", self.Q1)
-        print("Q2 =", self.Q2)
-        print("cR =", self.cR)
-
-    def _get_kriging_matrix(self, n):
-        """Assembles the kriging matrix."""
-
-        if self.coordinates_type == "euclidean":
-            xy = np.concatenate(
-                (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
-            )
-            d = cdist(xy, xy, "euclidean")
-        elif self.coordinates_type == "geographic":
-            d = core.great_circle_distance(
-                self.X_ADJUSTED[:, np.newaxis],
-                self.Y_ADJUSTED[:, np.newaxis],
-                self.X_ADJUSTED,
-                self.Y_ADJUSTED,
-            )
-        a = np.zeros((n + 1, n + 1))
-        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)
-
-        np.fill_diagonal(a, 0.0)
-        a[n, :] = 1.0
-        a[:, n] = 1.0
-        a[n, n] = 0.0
-        return a
-
-    def _exec_vector(self, a, bd, mask):
-        """Solves the kriging system as a vectorized operation. This method
-        can take a lot of memory for large grids and/or large datasets."""
-
-        npt = bd.shape[0]
-        n = self.X_ADJUSTED.shape[0]
-        zero_index = None
-        zero_value = False
-
-        # use the desired method to invert the kriging matrix
-        if self.pseudo_inv:
-            a_inv = P_INV[self.pseudo_inv_type](a)
-        else:
-            a_inv = scipy.linalg.inv(a)
-
-        if np.any(np.absolute(bd) <= self.eps):
-            zero_value = True
-            zero_index = np.where(np.absolute(bd) <= self.eps)
-
-        b = np.zeros((npt, n + 1, 1))
-        b[:, :n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
-        if zero_value and self.exact_values:
-            b[zero_index[0], zero_index[1], 0] = 0.0
-        b[:, n, 0] = 1.0
-
-        if (~mask).any():
-            mask_b = np.repeat(mask[:, np.newaxis, np.newaxis], n + 1, axis=1)
-            b = np.ma.array(b, mask=mask_b)
-
-        x = np.dot(a_inv, b.reshape((npt, n + 1)).T).reshape((1, n + 1, npt)).T
-        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)
-        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)
-
-        return zvalues, sigmasq
-
-    def _exec_loop(self, a, bd_all, mask):
-        """Solves the kriging system by looping over all specified points.
-        Less memory-intensive, but involves a Python-level loop."""
-
-        npt = bd_all.shape[0]
-        n = self.X_ADJUSTED.shape[0]
-        zvalues = np.zeros(npt)
-        sigmasq = np.zeros(npt)
-
-        # use the desired method to invert the kriging matrix
-        if self.pseudo_inv:
-            a_inv = P_INV[self.pseudo_inv_type](a)
-        else:
-            a_inv = scipy.linalg.inv(a)
-
-        for j in np.nonzero(~mask)[
-            0
-        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
-            bd = bd_all[j]  # otherwise it takes the non-masked elements.
-            if np.any(np.absolute(bd) <= self.eps):
-                zero_value = True
-                zero_index = np.where(np.absolute(bd) <= self.eps)
-            else:
-                zero_index = None
-                zero_value = False
-
-            b = np.zeros((n + 1, 1))
-            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
-            if zero_value and self.exact_values:
-                b[zero_index[0], 0] = 0.0
-            b[n, 0] = 1.0
-            x = np.dot(a_inv, b)
-            zvalues[j] = np.sum(x[:n, 0] * self.Z)
-            sigmasq[j] = np.sum(x[:, 0] * -b[:, 0])
-
-        return zvalues, sigmasq
-
-    def _exec_loop_moving_window(self, a_all, bd_all, mask, bd_idx):
-        """Solves the kriging system by looping over all specified points.
-        Less memory-intensive, but involves a Python-level loop."""
-        import scipy.linalg.lapack
-
-        npt = bd_all.shape[0]
-        n = bd_idx.shape[1]
-        zvalues = np.zeros(npt)
-        sigmasq = np.zeros(npt)
-
-        for i in np.nonzero(~mask)[
-            0
-        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
-            b_selector = bd_idx[i]  # otherwise it takes the non-masked elements.
-            bd = bd_all[i]
-
-            a_selector = np.concatenate((b_selector, np.array([a_all.shape[0] - 1])))
-            a = a_all[a_selector[:, None], a_selector]
-
-            if np.any(np.absolute(bd) <= self.eps):
-                zero_value = True
-                zero_index = np.where(np.absolute(bd) <= self.eps)
-            else:
-                zero_index = None
-                zero_value = False
-            b = np.zeros((n + 1, 1))
-            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
-            if zero_value and self.exact_values:
-                b[zero_index[0], 0] = 0.0
-            b[n, 0] = 1.0
-
-            if self.pseudo_inv:
-                x = P_INV[self.pseudo_inv_type](a).dot(b)
-            else:
-                x = scipy.linalg.solve(a, b)
-
-            zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
-            sigmasq[i] = -x[:, 0].dot(b[:, 0])
-
-        return zvalues, sigmasq
-
-    def execute(
-        self,
-        style,
-        xpoints,
-        ypoints,
-        mask=None,
-        backend="vectorized",
-        n_closest_points=None,
-    ):
-        """Calculates a kriged grid and the associated variance.
-
-        Parameters
-        ----------
-        style : str
-            Specifies how to treat input kriging points. Specifying 'grid'
-            treats xpoints and ypoints as two arrays of x and y coordinates
-            that define a rectangular grid. Specifying 'points' treats
-            xpoints and ypoints as two arrays that provide coordinate pairs
-            at which to solve the kriging system. Specifying 'masked'
-            treats xpoints and ypoints as two arrays of x and y coordinates
-            that define a rectangular grid and uses mask to only evaluate
-            specific points in the grid.
-        xpoints : array_like, shape (N,) or (N, 1)
-            If style is specific as 'grid' or 'masked',
-            x-coordinates of MxN grid. If style is specified as 'points',
-            x-coordinates of specific points at which to solve
-            kriging system.
-        ypoints : array_like, shape (M,) or (M, 1)
-            If style is specified as 'grid' or 'masked',
-            y-coordinates of MxN grid. If style is specified as 'points',
-            y-coordinates of specific points at which to solve kriging
-            system. Note that in this case, xpoints and ypoints must have
-            the same dimensions (i.e., M = N).
-        mask : bool, array_like, shape (M, N), optional
-            Specifies the points in the rectangular grid defined
-            by xpoints and ypoints that are to be excluded in the
-            kriging calculations. Must be provided if style is specified
-            as 'masked'. False indicates that the point should not be
-            masked, so the kriging system will be solved at the point.
-            True indicates that the point should be masked, so the kriging
-            system should will not be solved at the point.
-        backend : str, optional
-            Specifies which approach to use in kriging.
-            Specifying 'vectorized' will solve the entire kriging problem
-            at once in a vectorized operation. This approach is faster but
-            also can consume a significant amount of memory for large grids
-            and/or large datasets. Specifying 'loop' will loop through each
-            point at which the kriging system is to be solved.
-            This approach is slower but also less memory-intensive.
-            Specifying 'C' will utilize a loop in Cython.
-            Default is 'vectorized'.
-        n_closest_points : int, optional
-            For kriging with a moving window, specifies the number of
-            nearby points to use in the calculation. This can speed up the
-            calculation for large datasets, but should be used
-            with caution. As Kitanidis notes, kriging with a moving window
-            can produce unexpected oddities if the variogram model
-            is not carefully chosen.
-
-        Returns
-        -------
-        zvalues : ndarray, shape (M, N) or (N, 1)
-            Z-values of specified grid or at the specified set of points.
-            If style was specified as 'masked', zvalues will
-            be a numpy masked array.
-        sigmasq : ndarray, shape (M, N) or (N, 1)
-            Variance at specified grid points or at the specified
-            set of points. If style was specified as 'masked', sigmasq
-            will be a numpy masked array.
-        """
-
-        if self.verbose:
-            print("Executing Ordinary Kriging...\n")
-
-        if style != "grid" and style != "masked" and style != "points":
-            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
-
-        if n_closest_points is not None and n_closest_points <= 1:
-            # If this is not checked, nondescriptive errors emerge
-            # later in the code.
-            raise ValueError("n_closest_points has to be at least two!")
-        if n_closest_points is not None:
-            # there can't be more neighbors than data points
-            n_closest_points = min(n_closest_points, self.X_ADJUSTED.shape[0])
-
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        n = self.X_ADJUSTED.shape[0]
-        nx = xpts.size
-        ny = ypts.size
-        a = self._get_kriging_matrix(n)
-
-        if style in ["grid", "masked"]:
-            if style == "masked":
-                if mask is None:
-                    raise IOError(
-                        "Must specify boolean masking array when style is 'masked'."
-                    )
-                mask = np.asarray(mask, dtype=bool)
-                if mask.shape[0] != ny or mask.shape[1] != nx:
-                    if mask.shape[0] == nx and mask.shape[1] == ny:
-                        mask = mask.T
-                    else:
-                        raise ValueError(
-                            "Mask dimensions do not match specified grid dimensions."
-                        )
-                mask = mask.flatten()
-            npt = ny * nx
-            grid_x, grid_y = np.meshgrid(xpts, ypts)
-            xpts = grid_x.flatten()
-            ypts = grid_y.flatten()
-
-        elif style == "points":
-            if xpts.size != ypts.size:
-                raise ValueError(
-                    "xpoints and ypoints must have "
-                    "same dimensions when treated as "
-                    "listing discrete points."
-                )
-            npt = nx
-        else:
-            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
-
-        if self.coordinates_type == "euclidean":
-            xpts, ypts = _adjust_for_anisotropy(
-                np.vstack((xpts, ypts)).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
-            ).T
-            # Prepare for cdist:
-            xy_data = np.concatenate(
-                (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
-            )
-            xy_points = np.concatenate(
-                (xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1
-            )
-        elif self.coordinates_type == "geographic":
-            # In spherical coordinates, we do not correct for anisotropy.
-            # Also, we don't use scipy.spatial.cdist, so we do not have to
-            # format the input data accordingly.
-            pass
-
-        if style != "masked":
-            mask = np.zeros(npt, dtype="bool")
-
-        c_pars = None
-        if backend == "C":
-            # the extension selects its own implementation by function name
-            if self.variogram_function not in self.variogram_dict.values():
-                raise NotImplementedError(
-                    "Custom variogram functions are not supported by the C backend."
-                )
-            try:
-                from .lib.cok import _c_exec_loop, _c_exec_loop_moving_window
-            except ImportError:
-                print(
-                    "Warning: failed to load Cython extensions.\n"
-                    "   See https://github.com/GeoStat-Framework/PyKrige/issues/8 \n"
-                    "   Falling back to a pure python backend..."
-                )
-                backend = "loop"
-            except:
-                raise RuntimeError("Unknown error in trying to load Cython extension.")
-
-            c_pars = {
-                key: getattr(self, key)
-                for key in [
-                    "Z",
-                    "eps",
-                    "variogram_model_parameters",
-                    "variogram_function",
-                    "exact_values",
-                    "pseudo_inv",
-                    "pseudo_inv_type",
-                ]
-            }
-
-        if n_closest_points is not None:
-            if self.coordinates_type == "geographic":
-                # To make use of the KDTree, we have to convert the
-                # spherical coordinates into three dimensional Euclidean
-                # coordinates, since the standard KDTree cannot handle
-                # the periodicity.
-                # Do the conversion just for the step involving the KDTree:
-                lon_d = self.X_ADJUSTED[:, np.newaxis] * np.pi / 180.0
-                lat_d = self.Y_ADJUSTED[:, np.newaxis] * np.pi / 180.0
-                xy_data = np.concatenate(
-                    (
-                        np.cos(lon_d) * np.cos(lat_d),
-                        np.sin(lon_d) * np.cos(lat_d),
-                        np.sin(lat_d),
-                    ),
-                    axis=1,
-                )
-                lon_p = xpts[:, np.newaxis] * np.pi / 180.0
-                lat_p = ypts[:, np.newaxis] * np.pi / 180.0
-                xy_points = np.concatenate(
-                    (
-                        np.cos(lon_p) * np.cos(lat_p),
-                        np.sin(lon_p) * np.cos(lat_p),
-                        np.sin(lat_p),
-                    ),
-                    axis=1,
-                )
-
-            from scipy.spatial import cKDTree
-
-            tree = cKDTree(xy_data)
-            bd, bd_idx = tree.query(xy_points, k=n_closest_points, eps=0.0)
-            if np.any(bd_idx[~mask] >= n):
-                # the tree marks neighbors at infinite distance this way
-                raise ValueError("Too few data points within finite distance.")
-
-            if self.coordinates_type == "geographic":
-                # Between the nearest neighbours from Euclidean search,
-                # calculate the great circle distance using the standard method:
-                x_points = np.tile(xpts[:, np.newaxis], (1, n_closest_points))
-                y_points = np.tile(ypts[:, np.newaxis], (1, n_closest_points))
-                bd = core.great_circle_distance(
-                    x_points, y_points, self.X_ADJUSTED[bd_idx], self.Y_ADJUSTED[bd_idx]
-                )
-
-            if backend == "loop":
-                zvalues, sigmasq = self._exec_loop_moving_window(a, bd, mask, bd_idx)
-            elif backend == "C":
-                zvalues, sigmasq = _c_exec_loop_moving_window(
-                    a,
-                    bd,
-                    mask.astype("int8"),
-                    bd_idx.astype("long"),
-                    self.X_ADJUSTED.shape[0],
-                    c_pars,
-                )
-            else:
-                raise ValueError(
-                    "Specified backend {} for a moving window "
-                    "is not supported.".format(backend)
-                )
-        else:
-            if self.coordinates_type == "euclidean":
-                bd = cdist(xy_points, xy_data, "euclidean")
-            elif self.coordinates_type == "geographic":
-                bd = core.great_circle_distance(
-                    xpts[:, np.newaxis],
-                    ypts[:, np.newaxis],
-                    self.X_ADJUSTED,
-                    self.Y_ADJUSTED,
-                )
-
-            if backend == "vectorized":
-                zvalues, sigmasq = self._exec_vector(a, bd, mask)
-            elif backend == "loop":
-                zvalues, sigmasq = self._exec_loop(a, bd, mask)
-            elif backend == "C":
-                zvalues, sigmasq = _c_exec_loop(
-                    a, bd, mask.astype("int8"), self.X_ADJUSTED.shape[0], c_pars
-                )
-            else:
-                raise ValueError(
-                    "Specified backend {} is not supported for "
-                    "2D ordinary kriging.".format(backend)
-                )
-
-        if style == "masked":
-            zvalues = np.ma.array(zvalues, mask=mask)
-            sigmasq = np.ma.array(sigmasq, mask=mask)
-
-        if style in ["masked", "grid"]:
-            zvalues = zvalues.reshape((ny, nx))
-            sigmasq = sigmasq.reshape((ny, nx))
-
-        return zvalues, sigmasq
+# coding: utf-8
+"""
+PyKrige
+=======
+
+Code by Benjamin S. Murphy and the PyKrige Developers
+bscott.murphy@gmail.com
+
+Summary
+-------
+Contains class OrdinaryKriging, which provides easy access to
+2D Ordinary Kriging.
+
+References
+----------
+.. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
+    Hydrogeology, (Cambridge University Press, 1997) 272 p.
+.. [2] N. Cressie, Statistics for spatial data,
+   (Wiley Series in Probability and Statistics, 1993) 137 p.
+
+Copyright (c) 2015-2020, PyKrige Developers
+"""
+
+import warnings
+
+import numpy as np
+import scipy.linalg
+from scipy.spatial.distance import cdist
+
+from . import core, variogram_models
+from .compat_gstools import validate_gstools
+from .core import (
+    P_INV,
+    _adjust_for_anisotropy,
+    _find_statistics,
+    _initialize_variogram_model,
+    _make_variogram_parameter_list,
+    _restore_on_error,
+)
+
+
+class OrdinaryKriging:
+    r"""Convenience class for easy access to 2D Ordinary Kriging.
+
+    Parameters
+    ----------
+    x : array_like
+        X-coordinates of data points.
+    y : array_like
+        Y-coordinates of data points.
+    z : array-like
+        Values at data points.
+    variogram_model : str or GSTools CovModel, optional
+        Specifies which variogram model to use; may be one of the following:
+        linear, power, gaussian, spherical, exponential, hole-effect.
+        Default is linear variogram model. To utilize a custom variogram model,
+        specify 'custom'; you must also provide variogram_parameters and
+        variogram_function. Note that the hole-effect model is only technically
+        correct for one-dimensional problems.
+        You can also use a
+        `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
+    variogram_parameters : list or dict, optional
+        Parameters that define the specified variogram model. If not provided,
+        parameters will be automatically calculated using a "soft" L1 norm
+        minimization scheme. For variogram model parameters provided in a dict,
+        the required dict keys vary according to the specified variogram
+        model: ::
+
+           # linear
+               {'slope': slope, 'nugget': nugget}
+           # power
+               {'scale': scale, 'exponent': exponent, 'nugget': nugget}
+           # gaussian, spherical, exponential and hole-effect:
+               {'sill': s, 'range': r, 'nugget': n}
+               # OR
+               {'psill': p, 'range': r, 'nugget': n}
+
+        Note that either the full sill or the partial sill
+        (psill = sill - nugget) can be specified in the dict.
+        For variogram model parameters provided in a list, the entries
+        must be as follows: ::
+
+           # linear
+               [slope, nugget]
+           # power
+               [scale, exponent, nugget]
+           # gaussian, spherical, exponential and hole-effect:
+               [sill, range, nugget]
+
+        Note that the full sill (NOT the partial sill) must be specified
+        in the list format.
+        For a custom variogram model, the parameters are required, as custom
+        variogram models will not automatically be fit to the data.
+        Furthermore, the parameters must be specified in list format, in the
+        order in which they are used in the callable function (see
+        variogram_function for more information). The code does not check
+        that the provided list contains the appropriate number of parameters
+        for the custom variogram model, so an incorrect parameter list in
+        such a case will probably trigger an esoteric exception someplace
+        deep in the code.
+        NOTE that, while the list format expects the full sill, the code
+        itself works internally with the partial sill.
+    variogram_function : callable, optional
+        A callable function that must be provided if variogram_model is
+        specified as 'custom'. The function must take only two arguments:
+        first, a list of parameters for the variogram model; second, the
+        distances at which to calculate the variogram model. The list
+        provided in variogram_parameters will be passed to the function
+        as the first argument.
+    nlags : int, optional
+        Number of averaging bins for the semivariogram. Default is 6.
+    weight : bool, optional
+        Flag that specifies if semivariance at smaller lags should be weighted
+        more heavily when automatically calculating variogram model.
+        The routine is currently hard-coded such that the weights are
+        calculated from a logistic function, so weights at small lags are ~1
+        and weights at the longest lags are ~0; the center of the logistic
+        weighting is hard-coded to be at 70% of the distance from the shortest
+        lag to the largest lag. Setting this parameter to True indicates that
+        weights will be applied. Default is False. (Kitanidis suggests that the
+        values at smaller lags are more important in fitting a variogram model,
+        so the option is provided to enable such weighting.)
+    anisotropy_scaling : float, optional
+        Scalar stretching value to take into account anisotropy.
+        Default is 1 (effectively no stretching).
+        Scaling is applied in the y-direction in the rotated data frame
+        (i.e., after adjusting for the anisotropy_angle, if anisotropy_angle
+        is not 0). This parameter has no effect if coordinate_types is
+        set to 'geographic'.
+    anisotropy_angle : float, optional
+        CCW angle (in degrees) by which to rotate coordinate system in
+        order to take into account anisotropy. Default is 0 (no rotation).
+        Note that the coordinate system is rotated. This parameter has
+        no effect if coordinate_types is set to 'geographic'.
+    verbose : bool, optional
+        Enables program text output to monitor kriging process.
+        Default is False (off).
+    enable_plotting : bool, optional
+        Enables plotting to display variogram. Default is False (off).
+    enable_statistics : bool, optional
+        Default is False
+    coordinates_type : str, optional
+        One of 'euclidean' or 'geographic'. Determines if the x and y
+        coordinates are interpreted as on a plane ('euclidean') or as
+        coordinates on a sphere ('geographic'). In case of geographic
+        coordinates, x is interpreted as longitude and y as latitude
+        coordinates, both given in degree. Longitudes are expected in
+        [0, 360] and latitudes in [-90, 90]. Default is 'euclidean'.
+    exact_values : bool, optional
+        If True, interpolation provides input values at input locations.
+        If False, interpolation accounts for variance/nugget within input
+        values at input locations and does not behave as an
+        exact-interpolator [2]. Note that this only has an effect if
+        there is variance/nugget present within the input data since it is
+        interpreted as measurement error. If the nugget is zero, the kriged
+        field will behave as an exact interpolator.
+    pseudo_inv : :class:`bool`, optional
+        Whether the kriging system is solved with the pseudo inverted
+        kriging matrix. If `True`, this leads to more numerical stability
+        and redundant points are averaged. But it can take more time.
+        Default: False
+    pseudo_inv_type : :class:`str`, optional
+        Here you can select the algorithm to compute the pseudo-inverse matrix:
+
+            * `"pinv"`: use `pinv` from `scipy` which uses `lstsq`
+            * `"pinvh"`: use `pinvh` from `scipy` which uses eigen-values
+
+        Default: `"pinv"`
+
+    References
+    ----------
+    .. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
+       Hydrogeology, (Cambridge University Press, 1997) 272 p.
+    .. [2] N. Cressie, Statistics for spatial data,
+       (Wiley Series in Probability and Statistics, 1993) 137 p.
+    """
+
+    eps = 1.0e-10  # Cutoff for comparison to zero
+    variogram_dict = {
+        "linear": variogram_models.linear_variogram_model,
+        "power": variogram_models.power_variogram_model,
+        "gaussian": variogram_models.gaussian_variogram_model,
+        "spherical": variogram_models.spherical_variogram_model,
+        "exponential": variogram_models.exponential_variogram_model,
+        "hole-effect": variogram_models.hole_effect_variogram_model,
+    }
+
+    def __init__(
+        self,
+        x,
+        y,
+        z,
+        variogram_model="linear",
+        variogram_parameters=None,
+        variogram_function=None,
+        nlags=6,
+        weight=False,
+        anisotropy_scaling=1.0,
+        anisotropy_angle=0.0,
+        verbose=False,
+        enable_plotting=False,
+        enable_statistics=False,
+        coordinates_type="euclidean",
+        exact_values=True,
+        pseudo_inv=False,
+        pseudo_inv_type="pinv",
+    ):
+        # config the pseudo inverse
+        self.pseudo_inv = bool(pseudo_inv)
+        self.pseudo_inv_type = str(pseudo_inv_type)
+        if self.pseudo_inv_type not in P_INV:
+            raise ValueError("pseudo inv type not valid: " + str(pseudo_inv_type))
+
+        # set up variogram model and parameters...
+        self.variogram_model = variogram_model
+        self.model = None
+
+        if not isinstance(exact_values, bool):
+            raise ValueError("exact_values has to be boolean True or False")
+        self.exact_values = exact_values
+
+        self.coordinates_type = coordinates_type
+
+        # check if a GSTools covariance model is given
+        if hasattr(self.variogram_model, "pykrige_kwargs"):
+            # save the model in the class
+            self.model = self.variogram_model
+            validate_gstools(self.model)
+            if self.model.field_dim not in (1, 2):
+                raise ValueError("GSTools: model dim is not 1 or 2")
+            # check if coordinate types match
+            if self.model.latlon and (self.coordinates_type == "euclidean"):
+                raise ValueError(
+                    "GSTools: latlon models require geographic coordinates"
+                )
+            self.variogram_model = "custom"
+            variogram_function = self.model.pykrige_vario
+            variogram_parameters = []
+            anisotropy_scaling = self.model.pykrige_anis
+            anisotropy_angle = self.model.pykrige_angle
+        if (
+            self.variogram_model not in self.variogram_dict.keys()
+            and self.variogram_model != "custom"
+        ):
+            raise ValueError(
+                "Specified variogram model '%s' is not supported." % variogram_model
+            )
+        elif self.variogram_model == "custom":
+            if variogram_function is None or not callable(variogram_function):
+                raise ValueError(
+                    "Must specify callable function for custom variogram model."
+                )
+            else:
+                self.variogram_function = variogram_function
+        else:
+            self.variogram_function = self.variogram_dict[self.variogram_model]
+
+        # Code assumes 1D input arrays of floats. Ensures that any extraneous
+        # dimensions don't get in the way. Copies are created to avoid any
+        # problems with referencing the original passed arguments.
+        # Also, values are forced to be float... in the future, might be worth
+        # developing complex-number kriging (useful for vector field kriging)
+        self.X_ORIG = np.atleast_1d(
+            np.squeeze(np.array(x, copy=True, dtype=np.float64))
+        )
+        self.Y_ORIG = np.atleast_1d(
+            np.squeeze(np.array(y, copy=True, dtype=np.float64))
+        )
+        self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))
+
+        self.verbose = verbose
+        self.enable_plotting = enable_plotting
+        if self.enable_plotting and self.verbose:
+            print("Plotting Enabled\n")
+
+        # adjust for anisotropy... only implemented for euclidean (rectangular)
+        # coordinates, as anisotropy is ambiguous for geographic coordinates...
+        if self.coordinates_type == "euclidean":
+            self.XCENTER = (np.amax(self.X_ORIG) + np.amin(self.X_ORIG)) / 2.0
+            self.YCENTER = (np.amax(self.Y_ORIG) + np.amin(self.Y_ORIG)) / 2.0
+            self.anisotropy_scaling = anisotropy_scaling
+            self.anisotropy_angle = anisotropy_angle
+            if self.verbose:
+                print("Adjusting data for anisotropy...")
+            self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
+                np.vstack((self.X_ORIG, self.Y_ORIG)).T,
+                [self.XCENTER, self.YCENTER],
+                [self.anisotropy_scaling],
+                [self.anisotropy_angle],
+            ).T
+        elif self.coordinates_type == "geographic":
+            # Leave everything as is in geographic case.
+            # May be open to discussion?
+            if anisotropy_scaling != 1.0:
+                warnings.warn(
+                    "Anisotropy is not compatible with geographic "
+                    "coordinates. Ignoring user set anisotropy.",
+                    UserWarning,
+                )
+            self.XCENTER = 0.0
+            self.YCENTER = 0.0
+            self.anisotropy_scaling = 1.0
+            self.anisotropy_angle = 0.0
+            self.X_ADJUSTED = self.X_ORIG
+            self.Y_ADJUSTED = self.Y_ORIG
+        else:
+            raise ValueError(
+                "Only 'euclidean' and 'geographic' are valid "
+                "values for coordinates-keyword."
+            )
+
+        if self.verbose:
+            print("Initializing variogram model...")
+
+        vp_temp = _make_variogram_parameter_list(
+            self.variogram_model, variogram_parameters
+        )
+        (
+            self.lags,
+            self.semivariance,
+            self.variogram_model_parameters,
+        ) = _initialize_variogram_model(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_model,
+            vp_temp,
+            self.variogram_function,
+            nlags,
+            weight,
+            self.coordinates_type,
+        )
+
+        if self.verbose:
+            print("Coordinates type: '%s'" % self.coordinates_type, "\n")
+            if self.variogram_model == "linear":
+                print("Using '%s' Variogram Model" % "linear")
+                print("Slope:", self.variogram_model_parameters[0])
+                print("Nugget:", self.variogram_model_parameters[1], "\n")
+            elif self.variogram_model == "power":
+                print("Using '%s' Variogram Model" % "power")
+                print("Scale:", self.variogram_model_parameters[0])
+                print("Exponent:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+            elif self.variogram_model == "custom":
+                print("Using Custom Variogram Model")
+            else:
+                print("Using '%s' Variogram Model" % self.variogram_model)
+                print("Partial Sill:", self.variogram_model_parameters[0])
+                print(
+                    "Full Sill:",
+                    self.variogram_model_parameters[0]
+                    + self.variogram_model_parameters[2],
+                )
+                print("Range:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+        if self.enable_plotting:
+            self.display_variogram_model()
+
+        if self.verbose:
+            print("Calculating statistics on variogram model fit...")
+        if enable_statistics:
+            self.delta, self.sigma, self.epsilon = _find_statistics(
+                np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+                self.Z,
+                self.variogram_function,
+                self.variogram_model_parameters,
+                self.coordinates_type,
+                self.pseudo_inv,
+            )
+            self.Q1 = core.calcQ1(self.epsilon)
+            self.Q2 = core.calcQ2(self.epsilon)
+            self.cR = core.calc_cR(self.Q2, self.sigma)
+            if self.verbose:
+                print("Q1 =", self.Q1)
+                print("Q2 =", self.Q2)
+                print("cR =", self.cR, "\n")
+        else:
+            self.delta, self.sigma, self.epsilon, self.Q1, self.Q2, self.cR = [None] * 6
+
+    @_restore_on_error
+    def update_variogram_model(
+        self,
+        variogram_model,
+        variogram_parameters=None,
+        variogram_function=None,
+        nlags=6,
+        weight=False,
+        anisotropy_scaling=1.0,
+        anisotropy_angle=0.0,
+    ):
+        """Allows user to update variogram type and/or
+        variogram model parameters.
+
+        Parameters
+        __________
+        variogram_model : str or GSTools CovModel
+            May be any of the variogram models listed
+            above. May also be 'custom', in which case variogram_parameters
+            and variogram_function must be specified.
+            You can also use a
+            `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
+        variogram_parameters : list or dict, optional
+            List or dict of
+            variogram model parameters, as explained above. If not provided,
+            a best fit model will be calculated as described above.
+        variogram_function : callable, optional
+            A callable function that must
+            be provided if variogram_model is specified as 'custom'.
+            See above for more information.
+        nlags : int, optional
+            Number of averaging bins for the semivariogram.
+            Default is 6.
+        weight : boolean, optional
+            Flag that specifies if semivariance at
+            smaller lags should be weighted more heavily when automatically
+            calculating the variogram model. See above for more information.
+            True indicates that weights will be applied. Default is False.
+        anisotropy_scaling : float, optional
+            Scalar stretching value to
+            take into account anisotropy. Default is 1 (effectively no
+            stretching). Scaling is applied in the y-direction.
+        anisotropy_angle : float, optional
+            CCW angle (in degrees) by
+            which to rotate coordinate system in order to take into
+            account anisotropy. Default is 0 (no rotation).
+        """
+
+        # set up variogram model and parameters...
+        self.variogram_model = variogram_model
+        self.model = None
+        # check if a GSTools covariance model is given
+        if hasattr(self.variogram_model, "pykrige_kwargs"):
+            # save the model in the class
+            self.model = self.variogram_model
+            validate_gstools(self.model)
+            if self.model.field_dim not in (1, 2):
+                raise ValueError("GSTools: model dim is not 1 or 2")
+            # check if coordinate types match
+            if self.model.latlon and (self.coordinates_type == "euclidean"):
+                raise ValueError(
+                    "GSTools: latlon models require geographic coordinates"
+                )
+            self.variogram_model = "custom"
+            variogram_function = self.model.pykrige_vario
+            variogram_parameters = []
+            anisotropy_scaling = self.model.pykrige_anis
+            anisotropy_angle = self.model.pykrige_angle
+        if (
+            self.variogram_model not in self.variogram_dict.keys()
+            and self.variogram_model != "custom"
+        ):
+            raise ValueError(
+                "Specified variogram model '%s' is not supported." % variogram_model
+            )
+        elif self.variogram_model == "custom":
+            if variogram_function is None or not callable(variogram_function):
+                raise ValueError(
+                    "Must specify callable function for custom variogram model."
+                )
+            else:
+                self.variogram_function = variogram_function
+        else:
+            self.variogram_function = self.variogram_dict[self.variogram_model]
+
+        if (
+            anisotropy_scaling != self.anisotropy_scaling
+            or anisotropy_angle != self.anisotropy_angle
+        ):
+            if self.coordinates_type == "euclidean":
+                if self.verbose:
+                    print("Adjusting data for anisotropy...")
+                self.anisotropy_scaling = anisotropy_scaling
+                self.anisotropy_angle = anisotropy_angle
+                self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
+                    np.vstack((self.X_ORIG, self.Y_ORIG)).T,
+                    [self.XCENTER, self.YCENTER],
+                    [self.anisotropy_scaling],
+                    [self.anisotropy_angle],
+                ).T
+            elif self.coordinates_type == "geographic":
+                if anisotropy_scaling != 1.0:
+                    warnings.warn(
+                        "Anisotropy is not compatible with geographic"
+                        " coordinates. Ignoring user set anisotropy.",
+                        UserWarning,
+                    )
+                self.anisotropy_scaling = 1.0
+                self.anisotropy_angle = 0.0
+                self.X_ADJUSTED = self.X_ORIG
+                self.Y_ADJUSTED = self.Y_ORIG
+        if self.verbose:
+            print("Updating variogram mode...")
+
+        # See note above about the 'use_psill' kwarg...
+        vp_temp = _make_variogram_parameter_list(
+            self.variogram_model, variogram_parameters
+        )
+        (
+            self.lags,
+            self.semivariance,
+            self.variogram_model_parameters,
+        ) = _initialize_variogram_model(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_model,
+            vp_temp,
+            self.variogram_function,
+            nlags,
+            weight,
+            self.coordinates_type,
+        )
+
+        if self.verbose:
+            print("Coordinates type: '%s'" % self.coordinates_type, "\n")
+            if self.variogram_model == "linear":
+                print("Using '%s' Variogram Model" % "linear")
+                print("Slope:", self.variogram_model_parameters[0])
+                print("Nugget:", self.variogram_model_parameters[1], "\n")
+            elif self.variogram_model == "power":
+                print("Using '%s' Variogram Model" % "power")
+                print("Scale:", self.variogram_model_parameters[0])
+                print("Exponent:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+            elif self.variogram_model == "custom":
+                print("Using Custom Variogram Model")
+            else:
+                print("Using '%s' Variogram Model" % self.variogram_model)
+                print("Partial Sill:", self.variogram_model_parameters[0])
+                print(
+                    "Full Sill:",
+                    self.variogram_model_parameters[0]
+                    + self.variogram_model_parameters[2],
+                )
+                print("Range:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+        if self.enable_plotting:
+            self.display_variogram_model()
+
+        if self.verbose:
+            print("Calculating statistics on variogram model fit...")
+        self.delta, self.sigma, self.epsilon = _find_statistics(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_function,
+            self.variogram_model_parameters,
+            self.coordinates_type,
+            self.pseudo_inv,
+        )
+        self.Q1 = core.calcQ1(self.epsilon)
+        self.Q2 = core.calcQ2(self.epsilon)
+        self.cR = core.calc_cR(self.Q2, self.sigma)
+        if self.verbose:
+            print("Q1 =", self.Q1)
+            print("Q2 =", self.Q2)
+            print("cR =", self.cR, "\n")
+
+    def display_variogram_model(self):
+        """Displays variogram model with the actual binned data."""
+        import matplotlib.pyplot as plt
+
+        fig = plt.figure()
+        ax = fig.add_subplot(111)
+        ax.plot(self.lags, self.semivariance, "r*")
+        ax.plot(
+            self.lags,
+            self.variogram_function(self.variogram_model_parameters, self.lags),
+            "k-",
+        )
+        plt.show()
+
+    def get_variogram_points(self):
+        """Returns both the lags and the variogram function evaluated at each
+        of them.
+
+        The evaluation of the variogram function and the lags are produced
+        internally. This method is convenient when the user wants to access to
+        the lags and the resulting variogram (according to the model provided)
+        for further analysis.
+
+        Returns
+        -------
+        (tuple) tuple containing:
+            lags (array) - the lags at which the variogram was evaluated
+            variogram (array) - the variogram function evaluated at the lags
+        """
+        return (
+            self.lags,
+            self.variogram_function(self.variogram_model_parameters, self.lags),
+        )
+
+    def switch_verbose(self):
+        """Allows user to switch code talk-back on/off. Takes no arguments."""
+        self.verbose = not self.verbose
+
+    def switch_plotting(self):
+        """Allows user to switch plot display on/off. Takes no arguments."""
+        self.enable_plotting = not self.enable_plotting
+
+    def get_epsilon_residuals(self):
+        """Returns the epsilon residuals for the variogram fit."""
+        return self.epsilon
+
+    def plot_epsilon_residuals(self):
+        """Plots the epsilon residuals for the variogram fit."""
+        import matplotlib.pyplot as plt
+
+        fig = plt.figure()
+        ax = fig.add_subplot(111)
+        ax.scatter(range(self.epsilon.size), self.epsilon, c="k", marker="*")
+        ax.axhline(y=0.0)
+        plt.show()
+
+    def get_statistics(self):
+        """Returns the Q1, Q2, and cR statistics for the variogram fit
+        (in that order). No arguments.
+        """
+        return self.Q1, self.Q2, self.cR
+
+    def print_statistics(self):
+        """Prints out the Q1, Q2, and cR statistics for the variogram fit.
+        NOTE that ideally Q1 is close to zero, Q2 is close to 1,
+        and cR is as small as possible.
+        """
+        print("Q1 =", self.Q1)
+        print("Q2 =", self.Q2)
+        print("cR =", self.cR)
+
+    def _get_kriging_matrix(self, n):
+        """Assembles the kriging matrix."""
+
+        if self.coordinates_type == "euclidean":
+            xy = np.concatenate(
+                (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
+            )
+            d = cdist(xy, xy, "euclidean")
+        elif self.coordinates_type == "geographic":
+            d = core.great_circle_distance(
+                self.X_ADJUSTED[:, np.newaxis],
+                self.Y_ADJUSTED[:, np.newaxis],
+                self.X_ADJUSTED,
+                self.Y_ADJUSTED,
+            )
+        a = np.zeros((n + 1, n + 1))
+        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)
+
+        np.fill_diagonal(a, 0.0)
+        a[n, :] = 1.0
+        a[:, n] = 1.0
+        a[n, n] = 0.0
+        return a
+
+    def _exec_vector(self, a, bd, mask):
+        """Solves the kriging system as a vectorized operation. This method
+        can take a lot of memory for large grids and/or large datasets."""
+
+        npt = bd.shape[0]
+        n = self.X_ADJUSTED.shape[0]
+        zero_index = None
+        zero_value = False
+
+        # use the desired method to invert the kriging matrix
+        if self.pseudo_inv:
+            a_inv = P_INV[self.pseudo_inv_type](a)
+        else:
+            a_inv = scipy.linalg.inv(a)
+
+        if np.any(np.absolute(bd) <= self.eps):
+            zero_value = True
+            zero_index = np.where(np.absolute(bd) <= self.eps)
+
+        b = np.zeros((npt, n + 1, 1))
+        b[:, :n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
+        if zero_value and self.exact_values:
+            b[zero_index[0], zero_index[1], 0] = 0.0
+        b[:, n, 0] = 1.0
+
+        if (~mask).any():
+            mask_b = np.repeat(mask[:, np.newaxis, np.newaxis], n + 1, axis=1)
+            b = np.ma.array(b, mask=mask_b)
+
+        x = np.dot(a_inv, b.reshape((npt, n + 1)).T).reshape((1, n + 1, npt)).T
+        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)
+        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)
+
+        return zvalues, sigmasq
+
+    def _exec_loop(self, a, bd_all, mask):
+        """Solves the kriging system by looping over all specified points.
+        Less memory-intensive, but involves a Python-level loop."""
+
+        npt = bd_all.shape[0]
+        n = self.X_ADJUSTED.shape[0]
+        zvalues = np.zeros(npt)
+        sigmasq = np.zeros(npt)
+
+        # use the desired method to invert the kriging matrix
+        if self.pseudo_inv:
+            a_inv = P_INV[self.pseudo_inv_type](a)
+        else:
+            a_inv = scipy.linalg.inv(a)
+
+        for j in np.nonzero(~mask)[
+            0
+        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
+            bd = bd_all[j]  # otherwise it takes the non-masked elements.
+            if np.any(np.absolute(bd) <= self.eps):
+                zero_value = True
+                zero_index = np.where(np.absolute(bd) <= self.eps)
+            else:
+                zero_index = None
+                zero_value = False
+
+            b = np.zeros((n + 1, 1))
+            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
+            if zero_value and self.exact_values:
+                b[zero_index[0], 0] = 0.0
+            b[n, 0] = 1.0
+            x = np.dot(a_inv, b)
+            zvalues[j] = np.sum(x[:n, 0] * self.Z)
+            sigmasq[j] = np.sum(x[:, 0] * -b[:, 0])
+
+        return zvalues, sigmasq
+
+    def _exec_loop_moving_window(self, a_all, bd_all, mask, bd_idx):
+        """Solves the kriging system by looping over all specified points.
+        Less memory-intensive, but involves a Python-level loop."""
+        import scipy.linalg.lapack
+
+        npt = bd_all.shape[0]
+        n = bd_idx.shape[1]
+        zvalues = np.zeros(npt)
+        sigmasq = np.zeros(npt)
+
+        for i in np.nonzero(~mask)[
+            0
+        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
+            b_selector = bd_idx[i]  # otherwise it takes the non-masked elements.
+            bd = bd_all[i]
+
+            a_selector = np.concatenate((b_selector, np.array([a_all.shape[0] - 1])))
+            a = a_all[a_selector[:, None], a_selector]
+
+            if np.any(np.absolute(bd) <= self.eps):
+                zero_value = True
+                zero_index = np.where(np.absolute(bd) <= self.eps)
+            else:
+                zero_index = None
+                zero_value = False
+            b = np.zeros((n + 1, 1))
+            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
+            if zero_value and self.exact_values:
+                b[zero_index[0], 0] = 0.0
+            b[n, 0] = 1.0
+
+            if self.pseudo_inv:
+                x = P_INV[self.pseudo_inv_type](a).dot(b)
+            else:
+                x = scipy.linalg.solve(a, b)
+
+            zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
+            sigmasq[i] = -x[:, 0].dot(b[:, 0])
+
+        return zvalues, sigmasq
+
+    def execute(
+        self,
+        style,
+        xpoints,
+        ypoints,
+        mask=None,
+        backend="vectorized",
+        n_closest_points=None,
+    ):
+        """Calculates a kriged grid and the associated variance.
+
+        Parameters
+        ----------
+        style : str
+            Specifies how to treat input kriging points. Specifying 'grid'
+            treats xpoints and ypoints as two arrays of x and y coordinates
+            that define a rectangular grid. Specifying 'points' treats
+            xpoints and ypoints as two arrays that provide coordinate pairs
+            at which to solve the kriging system. Specifying 'masked'
+            treats xpoints and ypoints as two arrays of x and y coordinates
+            that define a rectangular grid and uses mask to only evaluate
+            specific points in the grid.
+        xpoints : array_like, shape (N,) or (N, 1)
+            If style is specific as 'grid' or 'masked',
+            x-coordinates of MxN grid. If style is specified as 'points',
+            x-coordinates of specific points at which to solve
+            kriging system.
+        ypoints : array_like, shape (M,) or (M, 1)
+            If style is specified as 'grid' or 'masked',
+            y-coordinates of MxN grid. If style is specified as 'points',
+            y-coordinates of specific points at which to solve kriging
+            system. Note that in this case, xpoints and ypoints must have
+            the same dimensions (i.e., M = N).
+        mask : bool, array_like, shape (M, N), optional
+            Specifies the points in the rectangular grid defined
+            by xpoints and ypoints that are to be excluded in the
+            kriging calculations. Must be provided if style is specified
+            as 'masked'. False indicates that the point should not be
+            masked, so the kriging system will be solved at the point.
+            True indicates that the point should be masked, so the kriging
+            system should will not be solved at the point.
+        backend : str, optional
+            Specifies which approach to use in kriging.
+            Specifying 'vectorized' will solve the entire kriging problem
+            at once in a vectorized operation. This approach is faster but
+            also can consume a significant amount of memory for large grids
+            and/or large datasets. Specifying 'loop' will loop through each
+            point at which the kriging system is to be solved.
+            This approach is slower but also less memory-intensive.
+            Specifying 'C' will utilize a loop in Cython.
+            Default is 'vectorized'.
+        n_closest_points : int, optional
+            For kriging with a moving window, specifies the number of
+            nearby points to use in the calculation. This can speed up the
+            calculation for large datasets, but should be used
+            with caution. As Kitanidis notes, kriging with a moving window
+            can produce unexpected oddities if the variogram model
+            is not carefully chosen.
+
+        Returns
+        -------
+        zvalues : ndarray, shape (M, N) or (N, 1)
+            Z-values of specified grid or at the specified set of points.
+            If style was specified as 'masked', zvalues will
+            be a numpy masked array.
+        sigmasq : ndarray, shape (M, N) or (N, 1)
+            Variance at specified grid points or at the specified
+            set of points. If style was specified as 'masked', sigmasq
+            will be a numpy masked array.
+        """
+
+        if self.verbose:
+            print("Executing Ordinary Kriging...\n")
+
+        if style != "grid" and style != "masked" and style != "points":
+            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
+
+        if n_closest_points is not None and n_closest_points <= 1:
+            # If this is not checked, nondescriptive errors emerge
+            # later in the code.
+            raise ValueError("n_closest_points has to be at least two!")
+        if n_closest_points is not None:
+            # there can't be more neighbors than data points
+            n_closest_points = min(n_closest_points, self.X_ADJUSTED.shape[0])
+
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        n = self.X_ADJUSTED.shape[0]
+        nx = xpts.size
+        ny = ypts.size
+        a = self._get_kriging_matrix(n)
+
+        if style in ["grid", "masked"]:
+            if style == "masked":
+                if mask is None:
+                    raise IOError(
+                        "Must specify boolean masking array when style is 'masked'."
+                    )
+                mask = np.asarray(mask, dtype=bool)
+                if mask.shape[0] != ny or mask.shape[1] != nx:
+                    if mask.shape[0] == nx and mask.shape[1] == ny:
+                        mask = mask.T
+                    else:
+                        raise ValueError(
+                            "Mask dimensions do not match specified grid dimensions."
+                        )
+                mask = mask.flatten()
+            npt = ny * nx
+            grid_x, grid_y = np.meshgrid(xpts, ypts)
+            xpts = grid_x.flatten()
+            ypts = grid_y.flatten()
+
+        elif style == "points":
+            if xpts.size != ypts.size:
+                raise ValueError(
+                    "xpoints and ypoints must have "
+                    "same dimensions when treated as "
+                    "listing discrete points."
+                )
+            npt = nx
+        else:
+            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
+
+        if self.coordinates_type == "euclidean":
+            xpts, ypts = _adjust_for_anisotropy(
+                np.vstack((xpts, ypts)).T,
+                [self.XCENTER, self.YCENTER],
+                [self.anisotropy_scaling],
+                [self.anisotropy_angle],
+            ).T
+            # Prepare for cdist:
+            xy_data = np.concatenate(
+                (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
+            )
+            xy_points = np.concatenate(
+                (xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1
+            )
+        elif self.coordinates_type == "geographic":
+            # In spherical coordinates, we do not correct for anisotropy.
+            # Also, we don't use scipy.spatial.cdist, so we do not have to
+            # format the input data accordingly.
+            pass
+
+        if style != "masked":
+            mask = np.zeros(npt, dtype="bool")
+
+        c_pars = None
+        if backend == "C":
+            # the extension selects its own implementation by function name
+            if self.variogram_function not in self.variogram_dict.values():
+                raise NotImplementedError(
+                    "Custom variogram functions are not supported by the C backend."
+                )
+            try:
+                from .lib.cok import _c_exec_loop, _c_exec_loop_moving_window
+            except ImportError:
+                print(
+                    "Warning: failed to load Cython extensions.\n"
+                    "   See https://github.com/GeoStat-Framework/PyKrige/issues/8 \n"
+                    "   Falling back to a pure python backend..."
+                )
+                backend = "loop"
+            except:
+                raise RuntimeError("Unknown error in trying to load Cython extension.")
+
+            c_pars = {
+                key: getattr(self, key)
+                for key in [
+                    "Z",
+                    "eps",
+                    "variogram_model_parameters",
+                    "variogram_function",
+                    "exact_values",
+                    "pseudo_inv",
+                    "pseudo_inv_type",
+                ]
+            }
+
+        if n_closest_points is not None:
+            if self.coordinates_type == "geographic":
+                # To make use of the KDTree, we have to convert the
+                # spherical coordinates into three dimensional Euclidean
+                # coordinates, since the standard KDTree cannot handle
+                # the periodicity.
+                # Do the conversion just for the step involving the KDTree:
+                lon_d = self.X_ADJUSTED[:, np.newaxis] * np.pi / 180.0
+                lat_d = self.Y_ADJUSTED[:, np.newaxis] * np.pi / 180.0
+                xy_data = np.concatenate(
+                    (
+                        np.cos(lon_d) * np.cos(lat_d),
+                        np.sin(lon_d) * np.cos(lat_d),
+                        np.sin(lat_d),
+                    ),
+                    axis=1,
+                )
+                lon_p = xpts[:, np.newaxis] * np.pi / 180.0
+                lat_p = ypts[:, np.newaxis] * np.pi / 180.0
+                xy_points = np.concatenate(
+                    (
+                        np.cos(lon_p) * np.cos(lat_p),
+                        np.sin(lon_p) * np.cos(lat_p),
+                        np.sin(lat_p),
+                    ),
+                    axis=1,
+                )
+
+            from scipy.spatial import cKDTree
+
+            tree = cKDTree(xy_data)
+            bd, bd_idx = tree.query(xy_points, k=n_closest_points, eps=0.0)
+            if np.any(bd_idx[~mask] >= n):
+                # the tree marks neighbors at infinite distance this way
+                raise ValueError("Too few data points within finite distance.")
+
+            if self.coordinates_type == "geographic":
+                # Between the nearest neighbours from Euclidean search,
+                # calculate the great circle distance using the standard method:
+                x_points = np.tile(xpts[:, np.newaxis], (1, n_closest_points))
+                y_points = np.tile(ypts[:, np.newaxis], (1, n_closest_points))
+                bd = core.great_circle_distance(
+                    x_points, y_points, self.X_ADJUSTED[bd_idx], self.Y_ADJUSTED[bd_idx]
+                )
+
+            if backend == "loop":
+                zvalues, sigmasq = self._exec_loop_moving_window(a, bd, mask, bd_idx)
+            elif backend == "C":
+                zvalues, sigmasq = _c_exec_loop_moving_window(
+                    a,
+                    bd,
+                    mask.astype("int8"),
+                    bd_idx.astype("long"),
+                    self.X_ADJUSTED.shape[0],
+                    c_pars,
+                )
+            else:
+                raise ValueError(
+                    "Specified backend {} for a moving window "
+                    "is not supported.".format(backend)
+                )
+        else:
+            if self.coordinates_type == "euclidean":
+                bd = cdist(xy_points, xy_data, "euclidean")
+            elif self.coordinates_type == "geographic":
+                bd = core.great_circle_distance(
+                    xpts[:, np.newaxis],
+                    ypts[:, np.newaxis],
+                    self.X_ADJUSTED,
+                    self.Y_ADJUSTED,
+                )
+
+            if backend == "vectorized":
+                zvalues, sigmasq = self._exec_vector(a, bd, mask)
+            elif backend == "loop":
+                zvalues, sigmasq = self._exec_loop(a, bd, mask)
+            elif backend == "C":
+                zvalues, sigmasq = _c_exec_loop(
+                    a, bd, mask.astype("int8"), self.X_ADJUSTED.shape[0], c_pars
+                )
+            else:
+                raise ValueError(
+                    "Specified backend {} is not supported for "
+                    "2D ordinary kriging.".format(backend)
+                )
+
+        if style == "masked":
+            zvalues = np.ma.array(zvalues, mask=mask)
+            sigmasq = np.ma.array(sigmasq, mask=mask)
+
+        if style in ["masked", "grid"]:
+            zvalues = zvalues.reshape((ny, nx))
+            sigmasq = sigmasq.reshape((ny, nx))
+
+        return zvalues, sigmasq
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index ffbdd27..015bfa6 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1,1351 +1,1351 @@
-# coding: utf-8
-"""
-PyKrige
-=======
-
-Code by Benjamin S. Murphy and the PyKrige Developers
-bscott.murphy@gmail.com
-
-Summary
--------
-Contains class UniversalKriging, provides greater control over 2D kriging by
-utilizing drift terms.
-
-References
-----------
-.. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
-    Hydrogeology, (Cambridge University Press, 1997) 272 p.
-.. [2] N. Cressie, Statistics for spatial data,
-   (Wiley Series in Probability and Statistics, 1993) 137 p.
-Copyright (c) 2015-2020, PyKrige Developers
-"""
-import warnings
-
-import numpy as np
-import scipy.linalg
-from scipy.spatial.distance import cdist
-
-from . import core, variogram_models
-from .compat_gstools import validate_gstools
-from .core import (
-    P_INV,
-    _adjust_for_anisotropy,
-    _find_statistics,
-    _initialize_variogram_model,
-    _make_variogram_parameter_list,
-    _restore_on_error,
-)
-
-
-class UniversalKriging:
-    """Provides greater control over 2D kriging by utilizing drift terms.
-
-    Parameters
-    ----------
-    x : array_like
-        X-coordinates of data points.
-    y : array_like
-        Y-coordinates of data points.
-    z : array_like
-        Values at data points.
-    variogram_model: str or GSTools CovModel, optional
-        Specified which variogram model to use; may be one of the following:
-        linear, power, gaussian, spherical, exponential, hole-effect.
-        Default is linear variogram model. To utilize a custom variogram model,
-        specify 'custom'; you must also provide variogram_parameters and
-        variogram_function. Note that the hole-effect model is only
-        technically correct for one-dimensional problems.
-        You can also use a
-        `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
-    variogram_parameters : list or dict, optional
-        Parameters that define the specified variogram model. If not provided,
-        parameters will be automatically calculated using a "soft" L1 norm
-        minimization scheme. For variogram model parameters provided in a dict,
-        the required dict keys vary according to the specified variogram
-        model: ::
-
-           # linear
-               {'slope': slope, 'nugget': nugget}
-           # power
-               {'scale': scale, 'exponent': exponent, 'nugget': nugget}
-           # gaussian, spherical, exponential and hole-effect:
-               {'sill': s, 'range': r, 'nugget': n}
-               # OR
-               {'psill': p, 'range': r, 'nugget': n}
-
-        Note that either the full sill or the partial sill
-        (psill = sill - nugget) can be specified in the dict.
-        For variogram model parameters provided in a list, the entries
-        must be as follows: ::
-
-           # linear
-               [slope, nugget]
-           # power
-               [scale, exponent, nugget]
-           # gaussian, spherical, exponential and hole-effect:
-               [sill, range, nugget]
-
-        Note that the full sill (NOT the partial sill) must be specified
-        in the list format.
-        For a custom variogram model, the parameters are required, as custom
-        variogram models will not automatically be fit to the data.
-        Furthermore, the parameters must be specified in list format, in the
-        order in which they are used in the callable function (see
-        variogram_function for more information). The code does not check
-        that the provided list contains the appropriate number of parameters
-        for the custom variogram model, so an incorrect parameter list in
-        such a case will probably trigger an esoteric exception someplace
-        deep in the code.
-        NOTE that, while the list format expects the full sill, the code
-        itself works internally with the partial sill.
-    variogram_function : callable, optional
-        A callable function that must be provided if variogram_model is
-        specified as 'custom'. The function must take only two arguments:
-        first, a list of parameters for the variogram model; second,
-        the distances at which to calculate the variogram model. The list
-        provided in variogram_parameters will be passed to the function
-        as the first argument.
-    nlags : int, optional
-        Number of averaging bins for the semivariogram. Default is 6.
-    weight : bool, optional
-        Flag that specifies if semivariance at smaller lags should be weighted
-        more heavily when automatically calculating variogram model.
-        The routine is currently hard-coded such  that the weights are
-        calculated from a logistic function, so weights at small lags are ~1
-        and weights at the longest lags are ~0; the center of the logistic
-        weighting is hard-coded to be at 70% of the distance from the shortest
-        lag to the largest lag. Setting this parameter to True indicates that
-        weights will be applied. Default is False.
-        (Kitanidis suggests that the values at smaller lags are more
-        important in fitting a variogram model, so the option is provided
-        to enable such weighting.)
-    anisotropy_scaling : float, optional
-        Scalar stretching value to take into account anisotropy.
-        Default is 1 (effectively no stretching).
-        Scaling is applied in the y-direction in the rotated data frame
-        (i.e., after adjusting for the anisotropy_angle, if anisotropy_angle
-        is not 0).
-    anisotropy_angle : float, optional
-        CCW angle (in degrees) by which to rotate coordinate system in order
-        to take into account anisotropy. Default is 0 (no rotation).
-        Note that the coordinate system is rotated.
-    drift_terms : list of strings, optional
-        List of drift terms to include in universal kriging. Supported drift
-        terms are currently 'regional_linear', 'point_log', 'external_Z',
-        'specified', and 'functional'.
-    point_drift : array_like, optional
-        Array-like object that contains the coordinates and strengths of the
-        point-logarithmic drift terms. Array shape must be (N, 3), where N is
-        the number of point drift terms. First column (index 0) must contain
-        x-coordinates, second column (index 1) must contain y-coordinates,
-        and third column (index 2) must contain the strengths of each
-        point term. Strengths are relative, so only the relation of the values
-        to each other matters. Note that the code will appropriately deal with
-        point-logarithmic terms that are at the same coordinates as an
-        evaluation point or data point, but Python will still kick out a
-        warning message that an ln(0) has been encountered. If the problem
-        involves anisotropy, the well coordinates will be adjusted and the
-        drift values will be calculated in the adjusted data frame.
-    external_drift : array_like, optional
-        Gridded data used for the external Z scalar drift term.
-        Must be shape (M, N), where M is in the y-direction and N is in the
-        x-direction. Grid spacing does not need to be constant. If grid spacing
-        is not constant, must specify the grid cell sizes. If the problem
-        involves anisotropy, the external drift values are extracted based on
-        the pre-adjusted coordinates (i.e., the original coordinate system).
-    external_drift_x : array_like, optional
-        X-coordinates for gridded external Z-scalar data. Must be shape (M,)
-        or (M, 1), where M is the number of grid cells in the x-direction.
-        The coordinate is treated as the center of the cell.
-    external_drift_y : array_like, optional
-        Y-coordinates for gridded external Z-scalar data. Must be shape (N,)
-        or (N, 1), where N is the number of grid cells in the y-direction.
-        The coordinate is treated as the center of the cell.
-    specified_drift : list of array-like objects, optional
-        List of arrays that contain the drift values at data points.
-        The arrays must be shape (N,) or (N, 1), where N is the number of
-        data points. Any number of specified-drift terms may be used.
-    functional_drift : list of callable objects, optional
-        List of callable functions that will be used to evaluate drift terms.
-        The function must be a function of only the two spatial coordinates
-        and must return a single value for each coordinate pair.
-        It must be set up to be called with only two arguments, first an array
-        of x values and second an array of y values. If the problem involves
-        anisotropy, the drift values are calculated in the adjusted data frame.
-    verbose : bool, optional
-        Enables program text output to monitor kriging process.
-        Default is False (off).
-    enable_plotting : boolean, optional
-        Enables plotting to display variogram. Default is False (off).
-    exact_values : bool, optional
-        If True, interpolation provides input values at input locations.
-        If False, interpolation accounts for variance/nugget within input
-        values at input locations and does not behave as an
-        exact-interpolator [2]. Note that this only has an effect if
-        there is variance/nugget present within the input data since it is
-        interpreted as measurement error. If the nugget is zero, the kriged
-        field will behave as an exact interpolator.
-    pseudo_inv : :class:`bool`, optional
-        Whether the kriging system is solved with the pseudo inverted
-        kriging matrix. If `True`, this leads to more numerical stability
-        and redundant points are averaged. But it can take more time.
-        Default: False
-    pseudo_inv_type : :class:`str`, optional
-        Here you can select the algorithm to compute the pseudo-inverse matrix:
-
-            * `"pinv"`: use `pinv` from `scipy` which uses `lstsq`
-            * `"pinvh"`: use `pinvh` from `scipy` which uses eigen-values
-
-        Default: `"pinv"`
-
-    References
-    ----------
-    .. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
-       Hydrogeology, (Cambridge University Press, 1997) 272 p.
-    .. [2] N. Cressie, Statistics for spatial data,
-       (Wiley Series in Probability and Statistics, 1993) 137 p.
-    """
-
-    UNBIAS = True  # This can be changed to remove the unbiasedness condition
-    # Really for testing purposes only...
-    eps = 1.0e-10  # Cutoff for comparison to zero
-    variogram_dict = {
-        "linear": variogram_models.linear_variogram_model,
-        "power": variogram_models.power_variogram_model,
-        "gaussian": variogram_models.gaussian_variogram_model,
-        "spherical": variogram_models.spherical_variogram_model,
-        "exponential": variogram_models.exponential_variogram_model,
-        "hole-effect": variogram_models.hole_effect_variogram_model,
-    }
-
-    def __init__(
-        self,
-        x,
-        y,
-        z,
-        variogram_model="linear",
-        variogram_parameters=None,
-        variogram_function=None,
-        nlags=6,
-        weight=False,
-        anisotropy_scaling=1.0,
-        anisotropy_angle=0.0,
-        drift_terms=None,
-        point_drift=None,
-        external_drift=None,
-        external_drift_x=None,
-        external_drift_y=None,
-        specified_drift=None,
-        functional_drift=None,
-        verbose=False,
-        enable_plotting=False,
-        exact_values=True,
-        pseudo_inv=False,
-        pseudo_inv_type="pinv",
-    ):
-        # config the pseudo inverse
-        self.pseudo_inv = bool(pseudo_inv)
-        self.pseudo_inv_type = str(pseudo_inv_type)
-        if self.pseudo_inv_type not in P_INV:
-            raise ValueError("pseudo inv type not valid: " + str(pseudo_inv_type))
-
-        # Deal with mutable default argument
-        if drift_terms is None:
-            drift_terms = []
-        if specified_drift is None:
-            specified_drift = []
-        if functional_drift is None:
-            functional_drift = []
-
-        # set up variogram model and parameters...
-        self.variogram_model = variogram_model
-        self.model = None
-
-        if not isinstance(exact_values, bool):
-            raise ValueError("exact_values has to be boolean True or False")
-        self.exact_values = exact_values
-
-        # check if a GSTools covariance model is given
-        if hasattr(self.variogram_model, "pykrige_kwargs"):
-            # save the model in the class
-            self.model = self.variogram_model
-            validate_gstools(self.model)
-            if self.model.field_dim not in (1, 2):
-                raise ValueError("GSTools: model dim is not 1 or 2")
-            if self.model.latlon:
-                raise ValueError(
-                    "GSTools: latlon models not supported for universal kriging"
-                )
-            self.variogram_model = "custom"
-            variogram_function = self.model.pykrige_vario
-            variogram_parameters = []
-            anisotropy_scaling = self.model.pykrige_anis
-            anisotropy_angle = self.model.pykrige_angle
-        if (
-            self.variogram_model not in self.variogram_dict.keys()
-            and self.variogram_model != "custom"
-        ):
-            raise ValueError(
-                "Specified variogram model '%s' is not supported." % variogram_model
-            )
-        elif self.variogram_model == "custom":
-            if variogram_function is None or not callable(variogram_function):
-                raise ValueError(
-                    "Must specify callable function for custom variogram model."
-                )
-            else:
-                self.variogram_function = variogram_function
-        else:
-            self.variogram_function = self.variogram_dict[self.variogram_model]
-
-        # Code assumes 1D input arrays. Ensures that any extraneous dimensions
-        # don't get in the way. Copies are created to avoid any problems with
-        # referencing the original passed arguments.
-        self.X_ORIG = np.atleast_1d(
-            np.squeeze(np.array(x, copy=True, dtype=np.float64))
-        )
-        self.Y_ORIG = np.atleast_1d(
-            np.squeeze(np.array(y, copy=True, dtype=np.float64))
-        )
-        self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))
-
-        self.verbose = verbose
-        self.enable_plotting = enable_plotting
-        if self.enable_plotting and self.verbose:
-            print("Plotting Enabled\n")
-
-        # adjust for anisotropy...
-        self.XCENTER = (np.amax(self.X_ORIG) + np.amin(self.X_ORIG)) / 2.0
-        self.YCENTER = (np.amax(self.Y_ORIG) + np.amin(self.Y_ORIG)) / 2.0
-        self.anisotropy_scaling = anisotropy_scaling
-        self.anisotropy_angle = anisotropy_angle
-        if self.verbose:
-            print("Adjusting data for anisotropy...")
-        self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
-            np.vstack((self.X_ORIG, self.Y_ORIG)).T,
-            [self.XCENTER, self.YCENTER],
-            [self.anisotropy_scaling],
-            [self.anisotropy_angle],
-        ).T
-
-        if self.verbose:
-            print("Initializing variogram model...")
-
-        # see comment in ok.py about 'use_psill' kwarg...
-        vp_temp = _make_variogram_parameter_list(
-            self.variogram_model, variogram_parameters
-        )
-        (
-            self.lags,
-            self.semivariance,
-            self.variogram_model_parameters,
-        ) = _initialize_variogram_model(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_model,
-            vp_temp,
-            self.variogram_function,
-            nlags,
-            weight,
-            "euclidean",
-        )
-        # TODO extend geographic capabilities to UK...
-
-        if self.verbose:
-            if self.variogram_model == "linear":
-                print("Using '%s' Variogram Model" % "linear")
-                print("Slope:", self.variogram_model_parameters[0])
-                print("Nugget:", self.variogram_model_parameters[1], "\n")
-            elif self.variogram_model == "power":
-                print("Using '%s' Variogram Model" % "power")
-                print("Scale:", self.variogram_model_parameters[0])
-                print("Exponent:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-            elif self.variogram_model == "custom":
-                print("Using Custom Variogram Model")
-            else:
-                print("Using '%s' Variogram Model" % self.variogram_model)
-                print("Partial Sill:", self.variogram_model_parameters[0])
-                print(
-                    "Full Sill:",
-                    self.variogram_model_parameters[0]
-                    + self.variogram_model_parameters[2],
-                )
-                print("Range:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-        if self.enable_plotting:
-            self.display_variogram_model()
-
-        if self.verbose:
-            print("Calculating statistics on variogram model fit...")
-        self.delta, self.sigma, self.epsilon = _find_statistics(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_function,
-            self.variogram_model_parameters,
-            "euclidean",
-            self.pseudo_inv,
-        )
-        self.Q1 = core.calcQ1(self.epsilon)
-        self.Q2 = core.calcQ2(self.epsilon)
-        self.cR = core.calc_cR(self.Q2, self.sigma)
-        if self.verbose:
-            print("Q1 =", self.Q1)
-            print("Q2 =", self.Q2)
-            print("cR =", self.cR, "\n")
-
-        if self.verbose:
-            print("Initializing drift terms...")
-
-        # Note that the regional linear drift values will be based
-        # on the adjusted coordinate system, Really, it doesn't actually
-        # matter which coordinate system is used here.
-        if "regional_linear" in drift_terms:
-            self.regional_linear_drift = True
-            if self.verbose:
-                print("Implementing regional linear drift.")
-        else:
-            self.regional_linear_drift = False
-
-        # External Z scalars are extracted using the original
-        # (unadjusted) coordinates.
-        if "external_Z" in drift_terms:
-            if external_drift is None:
-                raise ValueError("Must specify external Z drift terms.")
-            if external_drift_x is None or external_drift_y is None:
-                raise ValueError("Must specify coordinates of external Z drift terms.")
-            self.external_Z_drift = True
-            external_drift = np.asarray(external_drift, dtype=np.float64)
-            external_drift_x = np.asarray(external_drift_x, dtype=np.float64)
-            external_drift_y = np.asarray(external_drift_y, dtype=np.float64)
-            if (
-                external_drift.shape[0] != external_drift_y.shape[0]
-                or external_drift.shape[1] != external_drift_x.shape[0]
-            ):
-                if (
-                    external_drift.shape[0] == external_drift_x.shape[0]
-                    and external_drift.shape[1] == external_drift_y.shape[0]
-                ):
-                    self.external_Z_array = np.array(external_drift.T)
-                else:
-                    raise ValueError(
-                        "External drift dimensions do not match "
-                        "provided x- and y-coordinate dimensions."
-                    )
-            else:
-                self.external_Z_array = np.array(external_drift)
-            self.external_Z_array_x = np.array(external_drift_x).flatten()
-            self.external_Z_array_y = np.array(external_drift_y).flatten()
-            # the bilinear interpolation needs ascending grid coordinates
-            order_x = np.argsort(self.external_Z_array_x)
-            order_y = np.argsort(self.external_Z_array_y)
-            self.external_Z_array_x = self.external_Z_array_x[order_x]
-            self.external_Z_array_y = self.external_Z_array_y[order_y]
-            self.external_Z_array = self.external_Z_array[order_y][:, order_x]
-            self.z_scalars = self._calculate_data_point_zscalars(
-                self.X_ORIG, self.Y_ORIG
-            )
-            if self.verbose:
-                print("Implementing external Z drift.")
-        else:
-            self.external_Z_drift = False
-
-        # Well coordinates are rotated into adjusted coordinate frame.
-        if "point_log" in drift_terms:
-            if point_drift is None:
-                raise ValueError(
-                    "Must specify location(s) and strength(s) of point drift terms."
-                )
-            self.point_log_drift = True
-            point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
-            self.point_log_orig = point_log
-            self._adjust_point_log()
-            if self.verbose:
-                print(
-                    "Implementing external point-logarithmic drift; "
-                    "number of points =",
-                    self.point_log_array.shape[0],
-                    "\n",
-                )
-        else:
-            self.point_log_drift = False
-
-        if "specified" in drift_terms:
-            if type(specified_drift) is not list:
-                raise TypeError(
-                    "Arrays for specified drift terms must be "
-                    "encapsulated in a list."
-                )
-            if len(specified_drift) == 0:
-                raise ValueError(
-                    "Must provide at least one drift-value array "
-                    "when using the 'specified' drift capability."
-                )
-            self.specified_drift = True
-            self.specified_drift_data_arrays = []
-            for term in specified_drift:
-                specified = np.squeeze(np.array(term, copy=True))
-                if specified.size != self.X_ORIG.size:
-                    raise ValueError(
-                        "Must specify the drift values for each "
-                        "data point when using the 'specified' "
-                        "drift capability."
-                    )
-                self.specified_drift_data_arrays.append(specified)
-        else:
-            self.specified_drift = False
-
-        # The provided callable functions will be evaluated using
-        # the adjusted coordinates.
-        if "functional" in drift_terms:
-            if type(functional_drift) is not list:
-                raise TypeError(
-                    "Callables for functional drift terms must "
-                    "be encapsulated in a list."
-                )
-            if len(functional_drift) == 0:
-                raise ValueError(
-                    "Must provide at least one callable object "
-                    "when using the 'functional' drift capability."
-                )
-            self.functional_drift = True
-            self.functional_drift_terms = list(functional_drift)
-        else:
-            self.functional_drift = False
-
-    def _adjust_point_log(self):
-        """Transforms the point-log drift locations into the adjusted frame."""
-        self.point_log_array = np.zeros(self.point_log_orig.shape)
-        self.point_log_array[:, 2] = self.point_log_orig[:, 2]
-        self.point_log_array[:, :2] = _adjust_for_anisotropy(
-            np.vstack((self.point_log_orig[:, 0], self.point_log_orig[:, 1])).T,
-            [self.XCENTER, self.YCENTER],
-            [self.anisotropy_scaling],
-            [self.anisotropy_angle],
-        )
-
-    def _calculate_data_point_zscalars(self, x, y, type_="array"):
-        """Determines the Z-scalar values at the specified coordinates
-        for use when setting up the kriging matrix. Uses bilinear
-        interpolation.
-        Currently, the Z scalar values are extracted from the input Z grid
-        exactly at the specified coordinates. This means that if the Z grid
-        resolution is finer than the resolution of the desired kriged grid,
-        there is no averaging of the scalar values to return an average
-        Z value for that cell in the kriged grid. Rather, the exact Z value
-        right at the coordinate is used."""
-
-        if type_ == "scalar":
-            nx = 1
-            ny = 1
-            z_scalars = None
-        else:
-            if x.ndim == 1:
-                nx = x.shape[0]
-                ny = 1
-            else:
-                ny = x.shape[0]
-                nx = x.shape[1]
-            z_scalars = np.zeros(x.shape)
-
-        for m in range(ny):
-            for n in range(nx):
-                if type_ == "scalar":
-                    xn = x
-                    yn = y
-                else:
-                    if x.ndim == 1:
-                        xn = x[n]
-                        yn = y[n]
-                    else:
-                        xn = x[m, n]
-                        yn = y[m, n]
-
-                if (
-                    xn > np.amax(self.external_Z_array_x)
-                    or xn < np.amin(self.external_Z_array_x)
-                    or yn > np.amax(self.external_Z_array_y)
-                    or yn < np.amin(self.external_Z_array_y)
-                ):
-                    raise ValueError(
-                        "External drift array does not cover "
-                        "specified kriging domain."
-                    )
-
-                # bilinear interpolation
-                external_x2_index = np.amin(np.where(self.external_Z_array_x >= xn)[0])
-                external_x1_index = np.amax(np.where(self.external_Z_array_x <= xn)[0])
-                external_y2_index = np.amin(np.where(self.external_Z_array_y >= yn)[0])
-                external_y1_index = np.amax(np.where(self.external_Z_array_y <= yn)[0])
-                if external_y1_index == external_y2_index:
-                    if external_x1_index == external_x2_index:
-                        z = self.external_Z_array[external_y1_index, external_x1_index]
-                    else:
-                        z = (
-                            self.external_Z_array[external_y1_index, external_x1_index]
-                            * (self.external_Z_array_x[external_x2_index] - xn)
-                            + self.external_Z_array[
-                                external_y2_index, external_x2_index
-                            ]
-                            * (xn - self.external_Z_array_x[external_x1_index])
-                        ) / (
-                            self.external_Z_array_x[external_x2_index]
-                            - self.external_Z_array_x[external_x1_index]
-                        )
-                elif external_x1_index == external_x2_index:
-                    if external_y1_index == external_y2_index:
-                        z = self.external_Z_array[external_y1_index, external_x1_index]
-                    else:
-                        z = (
-                            self.external_Z_array[external_y1_index, external_x1_index]
-                            * (self.external_Z_array_y[external_y2_index] - yn)
-                            + self.external_Z_array[
-                                external_y2_index, external_x2_index
-                            ]
-                            * (yn - self.external_Z_array_y[external_y1_index])
-                        ) / (
-                            self.external_Z_array_y[external_y2_index]
-                            - self.external_Z_array_y[external_y1_index]
-                        )
-                else:
-                    z = (
-                        self.external_Z_array[external_y1_index, external_x1_index]
-                        * (self.external_Z_array_x[external_x2_index] - xn)
-                        * (self.external_Z_array_y[external_y2_index] - yn)
-                        + self.external_Z_array[external_y1_index, external_x2_index]
-                        * (xn - self.external_Z_array_x[external_x1_index])
-                        * (self.external_Z_array_y[external_y2_index] - yn)
-                        + self.external_Z_array[external_y2_index, external_x1_index]
-                        * (self.external_Z_array_x[external_x2_index] - xn)
-                        * (yn - self.external_Z_array_y[external_y1_index])
-                        + self.external_Z_array[external_y2_index, external_x2_index]
-                        * (xn - self.external_Z_array_x[external_x1_index])
-                        * (yn - self.external_Z_array_y[external_y1_index])
-                    ) / (
-                        (
-                            self.external_Z_array_x[external_x2_index]
-                            - self.external_Z_array_x[external_x1_index]
-                        )
-                        * (
-                            self.external_Z_array_y[external_y2_index]
-                            - self.external_Z_array_y[external_y1_index]
-                        )
-                    )
-
-                if type_ == "scalar":
-                    z_scalars = z
-                else:
-                    if z_scalars.ndim == 1:
-                        z_scalars[n] = z
-                    else:
-                        z_scalars[m, n] = z
-
-        return z_scalars
-
-    @_restore_on_error
-    def update_variogram_model(
-        self,
-        variogram_model,
-        variogram_parameters=None,
-        variogram_function=None,
-        nlags=6,
-        weight=False,
-        anisotropy_scaling=1.0,
-        anisotropy_angle=0.0,
-    ):
-        """Allows user to update variogram type and/or
-        variogram model parameters.
-
-        Parameters
-        ----------
-        variogram_model : str or GSTools CovModel
-            May be any of the variogram models listed above.
-            May also be 'custom', in which case variogram_parameters and
-            variogram_function must be specified.
-            You can also use a
-            `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
-        variogram_parameters : list or dict, optional
-            List or dict of variogram model parameters, as explained above.
-            If not provided, a best fit model will be calculated as
-            described above.
-        variogram_function : callable, optional
-            A callable function that must be provided if variogram_model is
-            specified as 'custom'. See above for more information.
-        nlags : int, optional
-            Number of averaging bins for the semivariogram. Defualt is 6.
-        weight : boolean, optional
-            Flag that specifies if semivariance at smaller lags should be
-            weighted more heavily when automatically calculating the
-            variogram model. See above for more information. True indicates
-            that weights will be applied. Default is False.
-        anisotropy_scaling : float, optional
-            Scalar stretching value to take into account anisotropy.
-            Default is 1 (effectively no stretching).
-            Scaling is applied in the y-direction.
-        anisotropy_angle : float, optional
-            CCW angle (in degrees) by which to rotate coordinate system in
-            order to take into account anisotropy. Default is 0 (no rotation).
-        """
-
-        # set up variogram model and parameters...
-        self.variogram_model = variogram_model
-        self.model = None
-        # check if a GSTools covariance model is given
-        if hasattr(self.variogram_model, "pykrige_kwargs"):
-            # save the model in the class
-            self.model = self.variogram_model
-            validate_gstools(self.model)
-            if self.model.field_dim not in (1, 2):
-                raise ValueError("GSTools: model dim is not 1 or 2")
-            if self.model.latlon:
-                raise ValueError(
-                    "GSTools: latlon models not supported for universal kriging"
-                )
-            self.variogram_model = "custom"
-            variogram_function = self.model.pykrige_vario
-            variogram_parameters = []
-            anisotropy_scaling = self.model.pykrige_anis
-            anisotropy_angle = self.model.pykrige_angle
-        if (
-            self.variogram_model not in self.variogram_dict.keys()
-            and self.variogram_model != "custom"
-        ):
-            raise ValueError(
-                "Specified variogram model '%s' is not supported." % variogram_model
-            )
-        elif self.variogram_model == "custom":
-            if variogram_function is None or not callable(variogram_function):
-                raise ValueError(
-                    "Must specify callable function for custom variogram model."
-                )
-            else:
-                self.variogram_function = variogram_function
-        else:
-            self.variogram_function = self.variogram_dict[self.variogram_model]
-
-        if (
-            anisotropy_scaling != self.anisotropy_scaling
-            or anisotropy_angle != self.anisotropy_angle
-        ):
-            if self.verbose:
-                print("Adjusting data for anisotropy...")
-            self.anisotropy_scaling = anisotropy_scaling
-            self.anisotropy_angle = anisotropy_angle
-            self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
-                np.vstack((self.X_ORIG, self.Y_ORIG)).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
-            ).T
-            if self.point_log_drift:
-                self._adjust_point_log()
-
-        if self.verbose:
-            print("Updating variogram mode...")
-
-        # See note above about the 'use_psill' kwarg...
-        vp_temp = _make_variogram_parameter_list(
-            self.variogram_model, variogram_parameters
-        )
-        (
-            self.lags,
-            self.semivariance,
-            self.variogram_model_parameters,
-        ) = _initialize_variogram_model(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_model,
-            vp_temp,
-            self.variogram_function,
-            nlags,
-            weight,
-            "euclidean",
-        )
-
-        if self.verbose:
-            if self.variogram_model == "linear":
-                print("Using '%s' Variogram Model" % "linear")
-                print("Slope:", self.variogram_model_parameters[0])
-                print("Nugget:", self.variogram_model_parameters[1], "\n")
-            elif self.variogram_model == "power":
-                print("Using '%s' Variogram Model" % "power")
-                print("Scale:", self.variogram_model_parameters[0])
-                print("Exponent:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-            elif self.variogram_model == "custom":
-                print("Using Custom Variogram Model")
-            else:
-                print("Using '%s' Variogram Model" % self.variogram_model)
-                print("Partial Sill:", self.variogram_model_parameters[0])
-                print(
-                    "Full Sill:",
-                    self.variogram_model_parameters[0]
-                    + self.variogram_model_parameters[2],
-                )
-                print("Range:", self.variogram_model_parameters[1])
-                print("Nugget:", self.variogram_model_parameters[2], "\n")
-        if self.enable_plotting:
-            self.display_variogram_model()
-
-        if self.verbose:
-            print("Calculating statistics on variogram model fit...")
-        self.delta, self.sigma, self.epsilon = _find_statistics(
-            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
-            self.Z,
-            self.variogram_function,
-            self.variogram_model_parameters,
-            "euclidean",
-            self.pseudo_inv,
-        )
-        self.Q1 = core.calcQ1(self.epsilon)
-        self.Q2 = core.calcQ2(self.epsilon)
-        self.cR = core.calc_cR(self.Q2, self.sigma)
-        if self.verbose:
-            print("Q1 =", self.Q1)
-            print("Q2 =", self.Q2)
-            print("cR =", self.cR, "\n")
-
-    def display_variogram_model(self):
-        """Displays variogram model with the actual binned data."""
-        import matplotlib.pyplot as plt
-
-        fig = plt.figure()
-        ax = fig.add_subplot(111)
-        ax.plot(self.lags, self.semivariance, "r*")
-        ax.plot(
-            self.lags,
-            self.variogram_function(self.variogram_model_parameters, self.lags),
-            "k-",
-        )
-        plt.show()
-
-    def get_variogram_points(self):
-        """Returns both the lags and the variogram function evaluated at each
-        of them.
-
-        The evaluation of the variogram function and the lags are produced
-        internally. This method is convenient when the user wants to access to
-        the lags and the resulting variogram (according to the model provided)
-        for further analysis.
-
-        Returns
-        -------
-        (tuple) tuple containing:
-            lags (array) - the lags at which the variogram was evaluated
-            variogram (array) - the variogram function evaluated at the lags
-        """
-        return (
-            self.lags,
-            self.variogram_function(self.variogram_model_parameters, self.lags),
-        )
-
-    def switch_verbose(self):
-        """Allows user to switch code talk-back on/off. Takes no arguments."""
-        self.verbose = not self.verbose
-
-    def switch_plotting(self):
-        """Allows user to switch plot display on/off. Takes no arguments."""
-        self.enable_plotting = not self.enable_plotting
-
-    def get_epsilon_residuals(self):
-        """Returns the epsilon residuals for the variogram fit."""
-        return self.epsilon
-
-    def plot_epsilon_residuals(self):
-        """Plots the epsilon residuals for the variogram fit."""
-        import matplotlib.pyplot as plt
-
-        fig = plt.figure()
-        ax = fig.add_subplot(111)
-        ax.scatter(range(self.epsilon.size), self.epsilon, c="k", marker="*")
-        ax.axhline(y=0.0)
-        plt.show()
-
-    def get_statistics(self):
-        """Returns the Q1, Q2, and cR statistics for the variogram fit
-        (in that order). No arguments.
-        """
-        return self.Q1, self.Q2, self.cR
-
-    def print_statistics(self):
-        """Prints out the Q1, Q2, and cR statistics for the variogram fit.
-        NOTE that ideally Q1 is close to zero, Q2 is close to 1,
-        and cR is as small as possible.
-        """
-        print("Q1 =", self.Q1)
-        print("Q2 =", self.Q2)
-        print("cR =", self.cR)
-
-    def _get_kriging_matrix(self, n, n_withdrifts):
-        """Assembles the kriging matrix."""
-
-        xy = np.concatenate(
-            (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
-        )
-        d = cdist(xy, xy, "euclidean")
-        if self.UNBIAS:
-            a = np.zeros((n_withdrifts + 1, n_withdrifts + 1))
-        else:
-            a = np.zeros((n_withdrifts, n_withdrifts))
-        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)
-
-        np.fill_diagonal(a, 0.0)
-
-        i = n
-        if self.regional_linear_drift:
-            a[:n, i] = self.X_ADJUSTED
-            a[i, :n] = self.X_ADJUSTED
-            i += 1
-            a[:n, i] = self.Y_ADJUSTED
-            a[i, :n] = self.Y_ADJUSTED
-            i += 1
-        if self.point_log_drift:
-            for well_no in range(self.point_log_array.shape[0]):
-                log_dist = np.log(
-                    np.sqrt(
-                        (self.X_ADJUSTED - self.point_log_array[well_no, 0]) ** 2
-                        + (self.Y_ADJUSTED - self.point_log_array[well_no, 1]) ** 2
-                    )
-                )
-                if np.any(np.isinf(log_dist)):
-                    log_dist[np.isinf(log_dist)] = -100.0
-                a[:n, i] = -self.point_log_array[well_no, 2] * log_dist
-                a[i, :n] = -self.point_log_array[well_no, 2] * log_dist
-                i += 1
-        if self.external_Z_drift:
-            a[:n, i] = self.z_scalars
-            a[i, :n] = self.z_scalars
-            i += 1
-        if self.specified_drift:
-            for arr in self.specified_drift_data_arrays:
-                a[:n, i] = arr
-                a[i, :n] = arr
-                i += 1
-        if self.functional_drift:
-            for func in self.functional_drift_terms:
-                a[:n, i] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
-                a[i, :n] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
-                i += 1
-        if i != n_withdrifts:
-            warnings.warn(
-                "Error in creating kriging matrix. Kriging may fail.", RuntimeWarning
-            )
-        if self.UNBIAS:
-            a[n_withdrifts, :n] = 1.0
-            a[:n, n_withdrifts] = 1.0
-            a[n : n_withdrifts + 1, n : n_withdrifts + 1] = 0.0
-
-        return a
-
-    def _exec_vector(self, a, bd, xy, xy_orig, mask, n_withdrifts, spec_drift_grids):
-        """Solves the kriging system as a vectorized operation. This method
-        can take a lot of memory for large grids and/or large datasets."""
-
-        npt = bd.shape[0]
-        n = self.X_ADJUSTED.shape[0]
-        zero_index = None
-        zero_value = False
-
-        # use the desired method to invert the kriging matrix
-        if self.pseudo_inv:
-            a_inv = P_INV[self.pseudo_inv_type](a)
-        else:
-            a_inv = scipy.linalg.inv(a)
-
-        if np.any(np.absolute(bd) <= self.eps):
-            zero_value = True
-            zero_index = np.where(np.absolute(bd) <= self.eps)
-
-        if self.UNBIAS:
-            b = np.zeros((npt, n_withdrifts + 1, 1))
-        else:
-            b = np.zeros((npt, n_withdrifts, 1))
-        b[:, :n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
-        if zero_value and self.exact_values:
-            b[zero_index[0], zero_index[1], 0] = 0.0
-
-        i = n
-        if self.regional_linear_drift:
-            b[:, i, 0] = xy[:, 0]
-            i += 1
-            b[:, i, 0] = xy[:, 1]
-            i += 1
-        if self.point_log_drift:
-            for well_no in range(self.point_log_array.shape[0]):
-                log_dist = np.log(
-                    np.sqrt(
-                        (xy[:, 0] - self.point_log_array[well_no, 0]) ** 2
-                        + (xy[:, 1] - self.point_log_array[well_no, 1]) ** 2
-                    )
-                )
-                if np.any(np.isinf(log_dist)):
-                    log_dist[np.isinf(log_dist)] = -100.0
-                b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
-                i += 1
-        if self.external_Z_drift:
-            # masked points may well lie outside of the external drift grid
-            b[~mask, i, 0] = self._calculate_data_point_zscalars(
-                xy_orig[~mask, 0], xy_orig[~mask, 1]
-            )
-            i += 1
-        if self.specified_drift:
-            for spec_vals in spec_drift_grids:
-                b[:, i, 0] = spec_vals.flatten()
-                i += 1
-        if self.functional_drift:
-            for func in self.functional_drift_terms:
-                b[:, i, 0] = func(xy[:, 0], xy[:, 1])
-                i += 1
-        if i != n_withdrifts:
-            warnings.warn(
-                "Error in setting up kriging system. Kriging may fail.",
-                RuntimeWarning,
-            )
-        if self.UNBIAS:
-            b[:, n_withdrifts, 0] = 1.0
-
-        if (~mask).any():
-            mask_b = np.repeat(
-                mask[:, np.newaxis, np.newaxis], n_withdrifts + 1, axis=1
-            )
-            b = np.ma.array(b, mask=mask_b)
-
-        if self.UNBIAS:
-            x = (
-                np.dot(a_inv, b.reshape((npt, n_withdrifts + 1)).T)
-                .reshape((1, n_withdrifts + 1, npt))
-                .T
-            )
-        else:
-            x = (
-                np.dot(a_inv, b.reshape((npt, n_withdrifts)).T)
-                .reshape((1, n_withdrifts, npt))
-                .T
-            )
-        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)
-        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)
-
-        return zvalues, sigmasq
-
-    def _exec_loop(self, a, bd_all, xy, xy_orig, mask, n_withdrifts, spec_drift_grids):
-        """Solves the kriging system by looping over all specified points.
-        Less memory-intensive, but involves a Python-level loop."""
-
-        npt = bd_all.shape[0]
-        n = self.X_ADJUSTED.shape[0]
-        zvalues = np.zeros(npt)
-        sigmasq = np.zeros(npt)
-
-        # use the desired method to invert the kriging matrix
-        if self.pseudo_inv:
-            a_inv = P_INV[self.pseudo_inv_type](a)
-        else:
-            a_inv = scipy.linalg.inv(a)
-
-        for j in np.nonzero(~mask)[
-            0
-        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
-            bd = bd_all[j]  # otherwise it takes the non-masked elements.
-            if np.any(np.absolute(bd) <= self.eps):
-                zero_value = True
-                zero_index = np.where(np.absolute(bd) <= self.eps)
-            else:
-                zero_index = None
-                zero_value = False
-
-            if self.UNBIAS:
-                b = np.zeros((n_withdrifts + 1, 1))
-            else:
-                b = np.zeros((n_withdrifts, 1))
-            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
-            if zero_value and self.exact_values:
-                b[zero_index[0], 0] = 0.0
-
-            i = n
-            if self.regional_linear_drift:
-                b[i, 0] = xy[j, 0]
-                i += 1
-                b[i, 0] = xy[j, 1]
-                i += 1
-            if self.point_log_drift:
-                for well_no in range(self.point_log_array.shape[0]):
-                    log_dist = np.log(
-                        np.sqrt(
-                            (xy[j, 0] - self.point_log_array[well_no, 0]) ** 2
-                            + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
-                        )
-                    )
-                    if np.isinf(log_dist):
-                        log_dist = -100.0
-                    b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
-                    i += 1
-            if self.external_Z_drift:
-                b[i, 0] = self._calculate_data_point_zscalars(
-                    xy_orig[j, 0], xy_orig[j, 1], type_="scalar"
-                )
-                i += 1
-            if self.specified_drift:
-                for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[j]
-                    i += 1
-            if self.functional_drift:
-                for func in self.functional_drift_terms:
-                    b[i, 0] = func(xy[j, 0], xy[j, 1])
-                    i += 1
-            if i != n_withdrifts:
-                warnings.warn(
-                    "Error in setting up kriging system. Kriging may fail.",
-                    RuntimeWarning,
-                )
-            if self.UNBIAS:
-                b[n_withdrifts, 0] = 1.0
-
-            x = np.dot(a_inv, b)
-            zvalues[j] = np.sum(x[:n, 0] * self.Z)
-            sigmasq[j] = np.sum(x[:, 0] * -b[:, 0])
-
-        return zvalues, sigmasq
-
-    def execute(
-        self,
-        style,
-        xpoints,
-        ypoints,
-        mask=None,
-        backend="vectorized",
-        specified_drift_arrays=None,
-    ):
-        """Calculates a kriged grid and the associated variance.
-        Includes drift terms.
-
-        Parameters
-        ----------
-        style : str
-            Specifies how to treat input kriging points. Specifying 'grid'
-            treats xpoints and ypoints as two arrays of x and y coordinates
-            that define a rectangular grid. Specifying 'points' treats xpoints
-            and ypoints as two arrays that provide coordinate pairs at which
-            to solve the kriging system. Specifying 'masked' treats xpoints and
-            ypoints as two arrays of x and y coordinates that define a
-            rectangular grid and uses mask to only evaluate specific points
-            in the grid.
-        xpoints : array_like, shape (N,) or (N, 1)
-            If style is specific as 'grid' or 'masked', x-coordinates of
-            MxN grid. If style is specified as 'points', x-coordinates of
-            specific points at which to solve kriging system.
-        ypoints : array-like, shape (M,) or (M, 1)
-            If style is specified as 'grid' or 'masked', y-coordinates of
-            MxN grid. If style is specified as 'points', y-coordinates of
-            specific points at which to solve kriging system.
-            Note that in this case, xpoints and ypoints must have the same
-            dimensions (i.e., M = N).
-        mask : boolean array, shape (M, N), optional
-            Specifies the points in the rectangular grid defined by xpoints and
-            ypoints that are to be excluded in the kriging calculations.
-            Must be provided if style is specified as 'masked'. False indicates
-            that the point should not be masked, so the kriging system will be
-            solved at the point. True indicates that the point should be masked,
-            so the kriging system should will not be solved at the point.
-        backend : str, optional
-            Specifies which approach to use in kriging. Specifying 'vectorized'
-            will solve the entire kriging problem at once in a vectorized
-            operation. This approach is faster but also can consume a
-            significant amount of memory for large grids and/or large datasets.
-            Specifying 'loop' will loop through each point at which the kriging
-            system is to be solved. This approach is slower but also less
-            memory-intensive. Default is 'vectorized'.
-            Note that Cython backend is not supported for UK.
-        specified_drift_arrays : list of array-like objects, optional
-            Specifies the drift values at the points at which the kriging
-            system is to be evaluated. Required if 'specified' drift provided
-            in the list of drift terms when instantiating the UniversalKriging
-            class. Must be a list of arrays in the same order as the list
-            provided when instantiating the kriging object. Array(s) must be
-            the same dimension as the specified grid or have the same number of
-            points as the specified points; i.e., the arrays either must be
-            shape (M, N), where M is the number of y grid-points and N is the
-            number of x grid-points, or shape (M, ) or (N, 1), where M is the
-            number of  points at which to evaluate the kriging system.
-
-        Returns
-        -------
-        zvalues : ndarray, shape (M, N) or (N, 1)
-            Z-values of specified grid or at the specified set of points.
-            If style was specified as 'masked', zvalues will be a numpy
-            masked array.
-        sigmasq : ndarray, shape (M, N) or (N, 1)
-            Variance at specified grid points or at the specified set of points.
-            If style was specified as 'masked', sigmasq will be a numpy
-            masked array.
-        """
-
-        if self.verbose:
-            print("Executing Universal Kriging...\n")
-
-        if style != "grid" and style != "masked" and style != "points":
-            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
-
-        n = self.X_ADJUSTED.shape[0]
-        n_withdrifts = n
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        nx = xpts.size
-        ny = ypts.size
-        if self.regional_linear_drift:
-            n_withdrifts += 2
-        if self.point_log_drift:
-            n_withdrifts += self.point_log_array.shape[0]
-        if self.external_Z_drift:
-            n_withdrifts += 1
-        if self.specified_drift:
-            n_withdrifts += len(self.specified_drift_data_arrays)
-        if self.functional_drift:
-            n_withdrifts += len(self.functional_drift_terms)
-        a = self._get_kriging_matrix(n, n_withdrifts)
-
-        if style in ["grid", "masked"]:
-            if style == "masked":
-                if mask is None:
-                    raise IOError(
-                        "Must specify boolean masking array when style is 'masked'."
-                    )
-                mask = np.asarray(mask, dtype=bool)
-                if mask.shape[0] != ny or mask.shape[1] != nx:
-                    if mask.shape[0] == nx and mask.shape[1] == ny:
-                        mask = mask.T
-                    else:
-                        raise ValueError(
-                            "Mask dimensions do not match specified grid dimensions."
-                        )
-                mask = mask.flatten()
-            npt = ny * nx
-            grid_x, grid_y = np.meshgrid(xpts, ypts)
-            xpts = grid_x.flatten()
-            ypts = grid_y.flatten()
-
-        elif style == "points":
-            if xpts.size != ypts.size:
-                raise ValueError(
-                    "xpoints and ypoints must have same "
-                    "dimensions when treated as listing "
-                    "discrete points."
-                )
-            npt = nx
-        else:
-            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
-
-        if specified_drift_arrays is None:
-            specified_drift_arrays = []
-        spec_drift_grids = []
-        if self.specified_drift:
-            if len(specified_drift_arrays) == 0:
-                raise ValueError(
-                    "Must provide drift values for kriging points "
-                    "when using 'specified' drift capability."
-                )
-            if type(specified_drift_arrays) is not list:
-                raise TypeError(
-                    "Arrays for specified drift terms must be "
-                    "encapsulated in a list."
-                )
-            for spec in specified_drift_arrays:
-                spec = np.asarray(spec)
-                if style in ["grid", "masked"]:
-                    if spec.ndim < 2:
-                        raise ValueError(
-                            "Dimensions of drift values array do "
-                            "not match specified grid dimensions."
-                        )
-                    elif spec.shape[0] != ny or spec.shape[1] != nx:
-                        if spec.shape[0] == nx and spec.shape[1] == ny:
-                            spec_drift_grids.append(np.squeeze(spec.T))
-                        else:
-                            raise ValueError(
-                                "Dimensions of drift values array "
-                                "do not match specified grid "
-                                "dimensions."
-                            )
-                    else:
-                        spec_drift_grids.append(np.squeeze(spec))
-                elif style == "points":
-                    if spec.ndim == 2 and spec.shape[1] == 1:
-                        spec = spec[:, 0]
-                    if spec.ndim != 1:
-                        raise ValueError(
-                            "Dimensions of drift values array do "
-                            "not match specified grid dimensions."
-                        )
-                    elif spec.shape[0] != xpts.size:
-                        raise ValueError(
-                            "Number of supplied drift values in "
-                            "array do not match specified number "
-                            "of kriging points."
-                        )
-                    else:
-                        spec_drift_grids.append(np.squeeze(spec))
-            if len(spec_drift_grids) != len(self.specified_drift_data_arrays):
-                raise ValueError(
-                    "Inconsistent number of specified drift terms supplied."
-                )
-        else:
-            if len(specified_drift_arrays) != 0:
-                warnings.warn(
-                    "Provided specified drift values, but "
-                    "'specified' drift was not initialized during "
-                    "instantiation of UniversalKriging class.",
-                    RuntimeWarning,
-                )
-
-        xy_points_original = np.concatenate(
-            (xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1
-        )
-        xpts, ypts = _adjust_for_anisotropy(
-            np.vstack((xpts, ypts)).T,
-            [self.XCENTER, self.YCENTER],
-            [self.anisotropy_scaling],
-            [self.anisotropy_angle],
-        ).T
-        xy_points = np.concatenate((xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1)
-        xy_data = np.concatenate(
-            (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
-        )
-
-        if style != "masked":
-            mask = np.zeros(npt, dtype="bool")
-
-        bd = cdist(xy_points, xy_data, "euclidean")
-        if backend == "vectorized":
-            zvalues, sigmasq = self._exec_vector(
-                a,
-                bd,
-                xy_points,
-                xy_points_original,
-                mask,
-                n_withdrifts,
-                spec_drift_grids,
-            )
-        elif backend == "loop":
-            zvalues, sigmasq = self._exec_loop(
-                a,
-                bd,
-                xy_points,
-                xy_points_original,
-                mask,
-                n_withdrifts,
-                spec_drift_grids,
-            )
-        else:
-            raise ValueError(
-                "Specified backend {} is not supported "
-                "for 2D universal kriging.".format(backend)
-            )
-
-        if style == "masked":
-            zvalues = np.ma.array(zvalues, mask=mask)
-            sigmasq = np.ma.array(sigmasq, mask=mask)
-
-        if style in ["masked", "grid"]:
-            zvalues = zvalues.reshape((ny, nx))
-            sigmasq = sigmasq.reshape((ny, nx))
-
-        return zvalues, sigmasq
+# coding: utf-8
+"""
+PyKrige
+=======
+
+Code by Benjamin S. Murphy and the PyKrige Developers
+bscott.murphy@gmail.com
+
+Summary
+-------
+Contains class UniversalKriging, provides greater control over 2D kriging by
+utilizing drift terms.
+
+References
+----------
+.. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
+    Hydrogeology, (Cambridge University Press, 1997) 272 p.
+.. [2] N. Cressie, Statistics for spatial data,
+   (Wiley Series in Probability and Statistics, 1993) 137 p.
+Copyright (c) 2015-2020, PyKrige Developers
+"""
+import warnings
+
+import numpy as np
+import scipy.linalg
+from scipy.spatial.distance import cdist
+
+from . import core, variogram_models
+from .compat_gstools import validate_gstools
+from .core import (
+    P_INV,
+    _adjust_for_anisotropy,
+    _find_statistics,
+    _initialize_variogram_model,
+    _make_variogram_parameter_list,
+    _restore_on_error,
+)
+
+
+class UniversalKriging:
+    """Provides greater control over 2D kriging by utilizing drift terms.
+
+    Parameters
+    ----------
+    x : array_like
+        X-coordinates of data points.
+    y : array_like
+        Y-coordinates of data points.
+    z : array_like
+        Values at data points.
+    variogram_model: str or GSTools CovModel, optional
+        Specified which variogram model to use; may be one of the following:
+        linear, power, gaussian, spherical, exponential, hole-effect.
+        Default is linear variogram model. To utilize a custom variogram model,
+        specify 'custom'; you must also provide variogram_parameters and
+        variogram_function. Note that the hole-effect model is only
+        technically correct for one-dimensional problems.
+        You can also use a
+        `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
+    variogram_parameters : list or dict, optional
+        Parameters that define the specified variogram model. If not provided,
+        parameters will be automatically calculated using a "soft" L1 norm
+        minimization scheme. For variogram model parameters provided in a dict,
+        the required dict keys vary according to the specified variogram
+        model: ::
+
+           # linear
+               {'slope': slope, 'nugget': nugget}
+           # power
+               {'scale': scale, 'exponent': exponent, 'nugget': nugget}
+           # gaussian, spherical, exponential and hole-effect:
+               {'sill': s, 'range': r, 'nugget': n}
+               # OR
+               {'psill': p, 'range': r, 'nugget': n}
+
+        Note that either the full sill or the partial sill
+        (psill = sill - nugget) can be specified in the dict.
+        For variogram model parameters provided in a list, the entries
+        must be as follows: ::
+
+           # linear
+               [slope, nugget]
+           # power
+               [scale, exponent, nugget]
+           # gaussian, spherical, exponential and hole-effect:
+               [sill, range, nugget]
+
+        Note that the full sill (NOT the partial sill) must be specified
+        in the list format.
+        For a custom variogram model, the parameters are required, as custom
+        variogram models will not automatically be fit to the data.
+        Furthermore, the parameters must be specified in list format, in the
+        order in which they are used in the callable function (see
+        variogram_function for more information). The code does not check
+        that the provided list contains the appropriate number of parameters
+        for the custom variogram model, so an incorrect parameter list in
+        such a case will probably trigger an esoteric exception someplace
+        deep in the code.
+        NOTE that, while the list format expects the full sill, the code
+        itself works internally with the partial sill.
+    variogram_function : callable, optional
+        A callable function that must be provided if variogram_model is
+        specified as 'custom'. The function must take only two arguments:
+        first, a list of parameters for the variogram model; second,
+        the distances at which to calculate the variogram model. The list
+        provided in variogram_parameters will be passed to the function
+        as the first argument.
+    nlags : int, optional
+        Number of averaging bins for the semivariogram. Default is 6.
+    weight : bool, optional
+        Flag that specifies if semivariance at smaller lags should be weighted
+        more heavily when automatically calculating variogram model.
+        The routine is currently hard-coded such  that the weights are
+        calculated from a logistic function, so weights at small lags are ~1
+        and weights at the longest lags are ~0; the center of the logistic
+        weighting is hard-coded to be at 70% of the distance from the shortest
+        lag to the largest lag. Setting this parameter to True indicates that
+        weights will be applied. Default is False.
+        (Kitanidis suggests that the values at smaller lags are more
+        important in fitting a variogram model, so the option is provided
+        to enable such weighting.)
+    anisotropy_scaling : float, optional
+        Scalar stretching value to take into account anisotropy.
+        Default is 1 (effectively no stretching).
+        Scaling is applied in the y-direction in the rotated data frame
+        (i.e., after adjusting for the anisotropy_angle, if anisotropy_angle
+        is not 0).
+    anisotropy_angle : float, optional
+        CCW angle (in degrees) by which to rotate coordinate system in order
+        to take into account anisotropy. Default is 0 (no rotation).
+        Note that the coordinate system is rotated.
+    drift_terms : list of strings, optional
+        List of drift terms to include in universal kriging. Supported drift
+        terms are currently 'regional_linear', 'point_log', 'external_Z',
+        'specified', and 'functional'.
+    point_drift : array_like, optional
+        Array-like object that contains the coordinates and strengths of the
+        point-logarithmic drift terms. Array shape must be (N, 3), where N is
+        the number of point drift terms. First column (index 0) must contain
+        x-coordinates, second column (index 1) must contain y-coordinates,
+        and third column (index 2) must contain the strengths of each
+        point term. Strengths are relative, so only the relation of the values
+        to each other matters. Note that the code will appropriately deal with
+        point-logarithmic terms that are at the same coordinates as an
+        evaluation point or data point, but Python will still kick out a
+        warning message that an ln(0) has been encountered. If the problem
+        involves anisotropy, the well coordinates will be adjusted and the
+        drift values will be calculated in the adjusted data frame.
+    external_drift : array_like, optional
+        Gridded data used for the external Z scalar drift term.
+        Must be shape (M, N), where M is in the y-direction and N is in the
+        x-direction. Grid spacing does not need to be constant. If grid spacing
+        is not constant, must specify the grid cell sizes. If the problem
+        involves anisotropy, the external drift values are extracted based on
+        the pre-adjusted coordinates (i.e., the original coordinate system).
+    external_drift_x : array_like, optional
+        X-coordinates for gridded external Z-scalar data. Must be shape (M,)
+        or (M, 1), where M is the number of grid cells in the x-direction.
+        The coordinate is treated as the center of the cell.
+    external_drift_y : array_like, optional
+        Y-coordinates for gridded external Z-scalar data. Must be shape (N,)
+        or (N, 1), where N is the number of grid cells in the y-direction.
+        The coordinate is treated as the center of the cell.
+    specified_drift : list of array-like objects, optional
+        List of arrays that contain the drift values at data points.
+        The arrays must be shape (N,) or (N, 1), where N is the number of
+        data points. Any number of specified-drift terms may be used.
+    functional_drift : list of callable objects, optional
+        List of callable functions that will be used to evaluate drift terms.
+        The function must be a function of only the two spatial coordinates
+        and must return a single value for each coordinate pair.
+        It must be set up to be called with only two arguments, first an array
+        of x values and second an array of y values. If the problem involves
+        anisotropy, the drift values are calculated in the adjusted data frame.
+    verbose : bool, optional
+        Enables program text output to monitor kriging process.
+        Default is False (off).
+    enable_plotting : boolean, optional
+        Enables plotting to display variogram. Default is False (off).
+    exact_values : bool, optional
+        If True, interpolation provides input values at input locations.
+        If False, interpolation accounts for variance/nugget within input
+        values at input locations and does not behave as an
+        exact-interpolator [2]. Note that this only has an effect if
+        there is variance/nugget present within the input data since it is
+        interpreted as measurement error. If the nugget is zero, the kriged
+        field will behave as an exact interpolator.
+    pseudo_inv : :class:`bool`, optional
+        Whether the kriging system is solved with the pseudo inverted
+        kriging matrix. If `True`, this leads to more numerical stability
+        and redundant points are averaged. But it can take more time.
+        Default: False
+    pseudo_inv_type : :class:`str`, optional
+        Here you can select the algorithm to compute the pseudo-inverse matrix:
+
+            * `"pinv"`: use `pinv` from `scipy` which uses `lstsq`
+            * `"pinvh"`: use `pinvh` from `scipy` which uses eigen-values
+
+        Default: `"pinv"`
+
+    References
+    ----------
+    .. [1] P.K. Kitanidis, Introduction to Geostatistcs: Applications in
+       Hydrogeology, (Cambridge University Press, 1997) 272 p.
+    .. [2] N. Cressie, Statistics for spatial data,
+       (Wiley Series in Probability and Statistics, 1993) 137 p.
+    """
+
+    UNBIAS = True  # This can be changed to remove the unbiasedness condition
+    # Really for testing purposes only...
+    eps = 1.0e-10  # Cutoff for comparison to zero
+    variogram_dict = {
+        "linear": variogram_models.linear_variogram_model,
+        "power": variogram_models.power_variogram_model,
+        "gaussian": variogram_models.gaussian_variogram_model,
+        "spherical": variogram_models.spherical_variogram_model,
+        "exponential": variogram_models.exponential_variogram_model,
+        "hole-effect": variogram_models.hole_effect_variogram_model,
+    }
+
+    def __init__(
+        self,
+        x,
+        y,
+        z,
+        variogram_model="linear",
+        variogram_parameters=None,
+        variogram_function=None,
+        nlags=6,
+        weight=False,
+        anisotropy_scaling=1.0,
+        anisotropy_angle=0.0,
+        drift_terms=None,
+        point_drift=None,
+        external_drift=None,
+        external_drift_x=None,
+        external_drift_y=None,
+        specified_drift=None,
+        functional_drift=None,
+        verbose=False,
+        enable_plotting=False,
+        exact_values=True,
+        pseudo_inv=False,
+        pseudo_inv_type="pinv",
+    ):
+        # config the pseudo inverse
+        self.pseudo_inv = bool(pseudo_inv)
+        self.pseudo_inv_type = str(pseudo_inv_type)
+        if self.pseudo_inv_type not in P_INV:
+            raise ValueError("pseudo inv type not valid: " + str(pseudo_inv_type))
+
+        # Deal with mutable default argument
+        if drift_terms is None:
+            drift_terms = []
+        if specified_drift is None:
+            specified_drift = []
+        if functional_drift is None:
+            functional_drift = []
+
+        # set up variogram model and parameters...
+        self.variogram_model = variogram_model
+        self.model = None
+
+        if not isinstance(exact_values, bool):
+            raise ValueError("exact_values has to be boolean True or False")
+        self.exact_values = exact_values
+
+        # check if a GSTools covariance model is given
+        if hasattr(self.variogram_model, "pykrige_kwargs"):
+            # save the model in the class
+            self.model = self.variogram_model
+            validate_gstools(self.model)
+            if self.model.field_dim not in (1, 2):
+                raise ValueError("GSTools: model dim is not 1 or 2")
+            if self.model.latlon:
+                raise ValueError(
+                    "GSTools: latlon models not supported for universal kriging"
+                )
+            self.variogram_model = "custom"
+            variogram_function = self.model.pykrige_vario
+            variogram_parameters = []
+            anisotropy_scaling = self.model.pykrige_anis
+            anisotropy_angle = self.model.pykrige_angle
+        if (
+            self.variogram_model not in self.variogram_dict.keys()
+            and self.variogram_model != "custom"
+        ):
+            raise ValueError(
+                "Specified variogram model '%s' is not supported." % variogram_model
+            )
+        elif self.variogram_model == "custom":
+            if variogram_function is None or not callable(variogram_function):
+                raise ValueError(
+                    "Must specify callable function for custom variogram model."
+                )
+            else:
+                self.variogram_function = variogram_function
+        else:
+            self.variogram_function = self.variogram_dict[self.variogram_model]
+
+        # Code assumes 1D input arrays. Ensures that any extraneous dimensions
+        # don't get in the way. Copies are created to avoid any problems with
+        # referencing the original passed arguments.
+        self.X_ORIG = np.atleast_1d(
+            np.squeeze(np.array(x, copy=True, dtype=np.float64))
+        )
+        self.Y_ORIG = np.atleast_1d(
+            np.squeeze(np.array(y, copy=True, dtype=np.float64))
+        )
+        self.Z = np.atleast_1d(np.squeeze(np.array(z, copy=True, dtype=np.float64)))
+
+        self.verbose = verbose
+        self.enable_plotting = enable_plotting
+        if self.enable_plotting and self.verbose:
+            print("Plotting Enabled\n")
+
+        # adjust for anisotropy...
+        self.XCENTER = (np.amax(self.X_ORIG) + np.amin(self.X_ORIG)) / 2.0
+        self.YCENTER = (np.amax(self.Y_ORIG) + np.amin(self.Y_ORIG)) / 2.0
+        self.anisotropy_scaling = anisotropy_scaling
+        self.anisotropy_angle = anisotropy_angle
+        if self.verbose:
+            print("Adjusting data for anisotropy...")
+        self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
+            np.vstack((self.X_ORIG, self.Y_ORIG)).T,
+            [self.XCENTER, self.YCENTER],
+            [self.anisotropy_scaling],
+            [self.anisotropy_angle],
+        ).T
+
+        if self.verbose:
+            print("Initializing variogram model...")
+
+        # see comment in ok.py about 'use_psill' kwarg...
+        vp_temp = _make_variogram_parameter_list(
+            self.variogram_model, variogram_parameters
+        )
+        (
+            self.lags,
+            self.semivariance,
+            self.variogram_model_parameters,
+        ) = _initialize_variogram_model(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_model,
+            vp_temp,
+            self.variogram_function,
+            nlags,
+            weight,
+            "euclidean",
+        )
+        # TODO extend geographic capabilities to UK...
+
+        if self.verbose:
+            if self.variogram_model == "linear":
+                print("Using '%s' Variogram Model" % "linear")
+                print("Slope:", self.variogram_model_parameters[0])
+                print("Nugget:", self.variogram_model_parameters[1], "\n")
+            elif self.variogram_model == "power":
+                print("Using '%s' Variogram Model" % "power")
+                print("Scale:", self.variogram_model_parameters[0])
+                print("Exponent:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+            elif self.variogram_model == "custom":
+                print("Using Custom Variogram Model")
+            else:
+                print("Using '%s' Variogram Model" % self.variogram_model)
+                print("Partial Sill:", self.variogram_model_parameters[0])
+                print(
+                    "Full Sill:",
+                    self.variogram_model_parameters[0]
+                    + self.variogram_model_parameters[2],
+                )
+                print("Range:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+        if self.enable_plotting:
+            self.display_variogram_model()
+
+        if self.verbose:
+            print("Calculating statistics on variogram model fit...")
+        self.delta, self.sigma, self.epsilon = _find_statistics(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_function,
+            self.variogram_model_parameters,
+            "euclidean",
+            self.pseudo_inv,
+        )
+        self.Q1 = core.calcQ1(self.epsilon)
+        self.Q2 = core.calcQ2(self.epsilon)
+        self.cR = core.calc_cR(self.Q2, self.sigma)
+        if self.verbose:
+            print("Q1 =", self.Q1)
+            print("Q2 =", self.Q2)
+            print("cR =", self.cR, "\n")
+
+        if self.verbose:
+            print("Initializing drift terms...")
+
+        # Note that the regional linear drift values will be based
+        # on the adjusted coordinate system, Really, it doesn't actually
+        # matter which coordinate system is used here.
+        if "regional_linear" in drift_terms:
+            self.regional_linear_drift = True
+            if self.verbose:
+                print("Implementing regional linear drift.")
+        else:
+            self.regional_linear_drift = False
+
+        # External Z scalars are extracted using the original
+        # (unadjusted) coordinates.
+        if "external_Z" in drift_terms:
+            if external_drift is None:
+                raise ValueError("Must specify external Z drift terms.")
+            if external_drift_x is None or external_drift_y is None:
+                raise ValueError("Must specify coordinates of external Z drift terms.")
+            self.external_Z_drift = True
+            external_drift = np.asarray(external_drift, dtype=np.float64)
+            external_drift_x = np.asarray(external_drift_x, dtype=np.float64)
+            external_drift_y = np.asarray(external_drift_y, dtype=np.float64)
+            if (
+                external_drift.shape[0] != external_drift_y.shape[0]
+                or external_drift.shape[1] != external_drift_x.shape[0]
+            ):
+                if (
+                    external_drift.shape[0] == external_drift_x.shape[0]
+                    and external_drift.shape[1] == external_drift_y.shape[0]
+                ):
+                    self.external_Z_array = np.array(external_drift.T)
+                else:
+                    raise ValueError(
+                        "External drift dimensions do not match "
+                        "provided x- and y-coordinate dimensions."
+                    )
+            else:
+                self.external_Z_array = np.array(external_drift)
+            self.external_Z_array_x = np.array(external_drift_x).flatten()
+            self.external_Z_array_y = np.array(external_drift_y).flatten()
+            # the bilinear interpolation needs ascending grid coordinates
+            order_x = np.argsort(self.external_Z_array_x)
+            order_y = np.argsort(self.external_Z_array_y)
+            self.external_Z_array_x = self.external_Z_array_x[order_x]
+            self.external_Z_array_y = self.external_Z_array_y[order_y]
+            self.external_Z_array = self.external_Z_array[order_y][:, order_x]
+            self.z_scalars = self._calculate_data_point_zscalars(
+                self.X_ORIG, self.Y_ORIG
+            )
+            if self.verbose:
+                print("Implementing external Z drift.")
+        else:
+            self.external_Z_drift = False
+
+        # Well coordinates are rotated into adjusted coordinate frame.
+        if "point_log" in drift_terms:
+            if point_drift is None:
+                raise ValueError(
+                    "Must specify location(s) and strength(s) of point drift terms."
+                )
+            self.point_log_drift = True
+            point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
+            self.point_log_orig = point_log
+            self._adjust_point_log()
+            if self.verbose:
+                print(
+                    "Implementing external point-logarithmic drift; "
+                    "number of points =",
+                    self.point_log_array.shape[0],
+                    "\n",
+                )
+        else:
+            self.point_log_drift = False
+
+        if "specified" in drift_terms:
+            if type(specified_drift) is not list:
+                raise TypeError(
+                    "Arrays for specified drift terms must be "
+                    "encapsulated in a list."
+                )
+            if len(specified_drift) == 0:
+                raise ValueError(
+                    "Must provide at least one drift-value array "
+                    "when using the 'specified' drift capability."
+                )
+            self.specified_drift = True
+            self.specified_drift_data_arrays = []
+            for term in specified_drift:
+                specified = np.squeeze(np.array(term, copy=True))
+                if specified.size != self.X_ORIG.size:
+                    raise ValueError(
+                        "Must specify the drift values for each "
+                        "data point when using the 'specified' "
+                        "drift capability."
+                    )
+                self.specified_drift_data_arrays.append(specified)
+        else:
+            self.specified_drift = False
+
+        # The provided callable functions will be evaluated using
+        # the adjusted coordinates.
+        if "functional" in drift_terms:
+            if type(functional_drift) is not list:
+                raise TypeError(
+                    "Callables for functional drift terms must "
+                    "be encapsulated in a list."
+                )
+            if len(functional_drift) == 0:
+                raise ValueError(
+                    "Must provide at least one callable object "
+                    "when using the 'functional' drift capability."
+                )
+            self.functional_drift = True
+            self.functional_drift_terms = list(functional_drift)
+        else:
+            self.functional_drift = False
+
+    def _adjust_point_log(self):
+        """Transforms the point-log drift locations into the adjusted frame."""
+        self.point_log_array = np.zeros(self.point_log_orig.shape)
+        self.point_log_array[:, 2] = self.point_log_orig[:, 2]
+        self.point_log_array[:, :2] = _adjust_for_anisotropy(
+            np.vstack((self.point_log_orig[:, 0], self.point_log_orig[:, 1])).T,
+            [self.XCENTER, self.YCENTER],
+            [self.anisotropy_scaling],
+            [self.anisotropy_angle],
+        )
+
+    def _calculate_data_point_zscalars(self, x, y, type_="array"):
+        """Determines the Z-scalar values at the specified coordinates
+        for use when setting up the kriging matrix. Uses bilinear
+        interpolation.
+        Currently, the Z scalar values are extracted from the input Z grid
+        exactly at the specified coordinates. This means that if the Z grid
+        resolution is finer than the resolution of the desired kriged grid,
+        there is no averaging of the scalar values to return an average
+        Z value for that cell in the kriged grid. Rather, the exact Z value
+        right at the coordinate is used."""
+
+        if type_ == "scalar":
+            nx = 1
+            ny = 1
+            z_scalars = None
+        else:
+            if x.ndim == 1:
+                nx = x.shape[0]
+                ny = 1
+            else:
+                ny = x.shape[0]
+                nx = x.shape[1]
+            z_scalars = np.zeros(x.shape)
+
+        for m in range(ny):
+            for n in range(nx):
+                if type_ == "scalar":
+                    xn = x
+                    yn = y
+                else:
+                    if x.ndim == 1:
+                        xn = x[n]
+                        yn = y[n]
+                    else:
+                        xn = x[m, n]
+                        yn = y[m, n]
+
+                if (
+                    xn > np.amax(self.external_Z_array_x)
+                    or xn < np.amin(self.external_Z_array_x)
+                    or yn > np.amax(self.external_Z_array_y)
+                    or yn < np.amin(self.external_Z_array_y)
+                ):
+                    raise ValueError(
+                        "External drift array does not cover "
+                        "specified kriging domain."
+                    )
+
+                # bilinear interpolation
+                external_x2_index = np.amin(np.where(self.external_Z_array_x >= xn)[0])
+                external_x1_index = np.amax(np.where(self.external_Z_array_x <= xn)[0])
+                external_y2_index = np.amin(np.where(self.external_Z_array_y >= yn)[0])
+                external_y1_index = np.amax(np.where(self.external_Z_array_y <= yn)[0])
+                if external_y1_index == external_y2_index:
+                    if external_x1_index == external_x2_index:
+                        z = self.external_Z_array[external_y1_index, external_x1_index]
+                    else:
+                        z = (
+                            self.external_Z_array[external_y1_index, external_x1_index]
+                            * (self.external_Z_array_x[external_x2_index] - xn)
+                            + self.external_Z_array[
+                                external_y2_index, external_x2_index
+                            ]
+                            * (xn - self.external_Z_array_x[external_x1_index])
+                        ) / (
+                            self.external_Z_array_x[external_x2_index]
+                            - self.external_Z_array_x[external_x1_index]
+                        )
+                elif external_x1_index == external_x2_index:
+                    if external_y1_index == external_y2_index:
+                        z = self.external_Z_array[external_y1_index, external_x1_index]
+                    else:
+                        z = (
+                            self.external_Z_array[external_y1_index, external_x1_index]
+                            * (self.external_Z_array_y[external_y2_index] - yn)
+                            + self.external_Z_array[
+                                external_y2_index, external_x2_index
+                            ]
+                            * (yn - self.external_Z_array_y[external_y1_index])
+                        ) / (
+                            self.external_Z_array_y[external_y2_index]
+                            - self.external_Z_array_y[external_y1_index]
+                        )
+                else:
+                    z = (
+                        self.external_Z_array[external_y1_index, external_x1_index]
+                        * (self.external_Z_array_x[external_x2_index] - xn)
+                        * (self.external_Z_array_y[external_y2_index] - yn)
+                        + self.external_Z_array[external_y1_index, external_x2_index]
+                        * (xn - self.external_Z_array_x[external_x1_index])
+                        * (self.external_Z_array_y[external_y2_index] - yn)
+                        + self.external_Z_array[external_y2_index, external_x1_index]
+                        * (self.external_Z_array_x[external_x2_index] - xn)
+                        * (yn - self.external_Z_array_y[external_y1_index])
+                        + self.external_Z_array[external_y2_index, external_x2_index]
+                        * (xn - self.external_Z_array_x[external_x1_index])
+                        * (yn - self.external_Z_array_y[external_y1_index])
+                    ) / (
+                        (
+                            self.external_Z_array_x[external_x2_index]
+                            - self.external_Z_array_x[external_x1_index]
+                        )
+                        * (
+                            self.external_Z_array_y[external_y2_index]
+                            - self.external_Z_array_y[external_y1_index]
+                        )
+                    )
+
+                if type_ == "scalar":
+                    z_scalars = z
+                else:
+                    if z_scalars.ndim == 1:
+                        z_scalars[n] = z
+                    else:
+                        z_scalars[m, n] = z
+
+        return z_scalars
+
+    @_restore_on_error
+    def update_variogram_model(
+        self,
+        variogram_model,
+        variogram_parameters=None,
+        variogram_function=None,
+        nlags=6,
+        weight=False,
+        anisotropy_scaling=1.0,
+        anisotropy_angle=0.0,
+    ):
+        """Allows user to update variogram type and/or
+        variogram model parameters.
+
+        Parameters
+        ----------
+        variogram_model : str or GSTools CovModel
+            May be any of the variogram models listed above.
+            May also be 'custom', in which case variogram_parameters and
+            variogram_function must be specified.
+            You can also use a
+            `GSTools <https://github.com/GeoStat-Framework/GSTools>`_ CovModel.
+        variogram_parameters : list or dict, optional
+            List or dict of variogram model parameters, as explained above.
+            If not provided, a best fit model will be calculated as
+            described above.
+        variogram_function : callable, optional
+            A callable function that must be provided if variogram_model is
+            specified as 'custom'. See above for more information.
+        nlags : int, optional
+            Number of averaging bins for the semivariogram. Defualt is 6.
+        weight : boolean, optional
+            Flag that specifies if semivariance at smaller lags should be
+            weighted more heavily when automatically calculating the
+            variogram model. See above for more information. True indicates
+            that weights will be applied. Default is False.
+        anisotropy_scaling : float, optional
+            Scalar stretching value to take into account anisotropy.
+            Default is 1 (effectively no stretching).
+            Scaling is applied in the y-direction.
+        anisotropy_angle : float, optional
+            CCW angle (in degrees) by which to rotate coordinate system in
+            order to take into account anisotropy. Default is 0 (no rotation).
+        """
+
+        # set up variogram model and parameters...
+        self.variogram_model = variogram_model
+        self.model = None
+        # check if a GSTools covariance model is given
+        if hasattr(self.variogram_model, "pykrige_kwargs"):
+            # save the model in the class
+            self.model = self.variogram_model
+            validate_gstools(self.model)
+            if self.model.field_dim not in (1, 2):
+                raise ValueError("GSTools: model dim is not 1 or 2")
+            if self.model.latlon:
+                raise ValueError(
+                    "GSTools: latlon models not supported for universal kriging"
+                )
+            self.variogram_model = "custom"
+            variogram_function = self.model.pykrige_vario
+            variogram_parameters = []
+            anisotropy_scaling = self.model.pykrige_anis
+            anisotropy_angle = self.model.pykrige_angle
+        if (
+            self.variogram_model not in self.variogram_dict.keys()
+            and self.variogram_model != "custom"
+        ):
+            raise ValueError(
+                "Specified variogram model '%s' is not supported." % variogram_model
+            )
+        elif self.variogram_model == "custom":
+            if variogram_function is None or not callable(variogram_function):
+                raise ValueError(
+                    "Must specify callable function for custom variogram model."
+                )
+            else:
+                self.variogram_function = variogram_function
+        else:
+            self.variogram_function = self.variogram_dict[self.variogram_model]
+
+        if (
+            anisotropy_scaling != self.anisotropy_scaling
+            or anisotropy_angle != self.anisotropy_angle
+        ):
+            if self.verbose:
+                print("Adjusting data for anisotropy...")
+            self.anisotropy_scaling = anisotropy_scaling
+            self.anisotropy_angle = anisotropy_angle
+            self.X_ADJUSTED, self.Y_ADJUSTED = _adjust_for_anisotropy(
+                np.vstack((self.X_ORIG, self.Y_ORIG)).T,
+                [self.XCENTER, self.YCENTER],
+                [self.anisotropy_scaling],
+                [self.anisotropy_angle],
+            ).T
+            if self.point_log_drift:
+                self._adjust_point_log()
+
+        if self.verbose:
+            print("Updating variogram mode...")
+
+        # See note above about the 'use_psill' kwarg...
+        vp_temp = _make_variogram_parameter_list(
+            self.variogram_model, variogram_parameters
+        )
+        (
+            self.lags,
+            self.semivariance,
+            self.variogram_model_parameters,
+        ) = _initialize_variogram_model(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_model,
+            vp_temp,
+            self.variogram_function,
+            nlags,
+            weight,
+            "euclidean",
+        )
+
+        if self.verbose:
+            if self.variogram_model == "linear":
+                print("Using '%s' Variogram Model" % "linear")
+                print("Slope:", self.variogram_model_parameters[0])
+                print("Nugget:", self.variogram_model_parameters[1], "\n")
+            elif self.variogram_model == "power":
+                print("Using '%s' Variogram Model" % "power")
+                print("Scale:", self.variogram_model_parameters[0])
+                print("Exponent:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+            elif self.variogram_model == "custom":
+                print("Using Custom Variogram Model")
+            else:
+                print("Using '%s' Variogram Model" % self.variogram_model)
+                print("Partial Sill:", self.variogram_model_parameters[0])
+                print(
+                    "Full Sill:",
+                    self.variogram_model_parameters[0]
+                    + self.variogram_model_parameters[2],
+                )
+                print("Range:", self.variogram_model_parameters[1])
+                print("Nugget:", self.variogram_model_parameters[2], "\n")
+        if self.enable_plotting:
+            self.display_variogram_model()
+
+        if self.verbose:
+            print("Calculating statistics on variogram model fit...")
+        self.delta, self.sigma, self.epsilon = _find_statistics(
+            np.vstack((self.X_ADJUSTED, self.Y_ADJUSTED)).T,
+            self.Z,
+            self.variogram_function,
+            self.variogram_model_parameters,
+            "euclidean",
+            self.pseudo_inv,
+        )
+        self.Q1 = core.calcQ1(self.epsilon)
+        self.Q2 = core.calcQ2(self.epsilon)
+        self.cR = core.calc_cR(self.Q2, self.sigma)
+        if self.verbose:
+            print("Q1 =", self.Q1)
+            print("Q2 =", self.Q2)
+            print("cR =", self.cR, "\n")
+
+    def display_variogram_model(self):
+        """Displays variogram model with the actual binned data."""
+        import matplotlib.pyplot as plt
+
+        fig = plt.figure()
+        ax = fig.add_subplot(111)
+        ax.plot(self.lags, self.semivariance, "r*")
+        ax.plot(
+            self.lags,
+            self.variogram_function(self.variogram_model_parameters, self.lags),
+            "k-",
+        )
+        plt.show()
+
+    def get_variogram_points(self):
+        """Returns both the lags and the variogram function evaluated at each
+        of them.
+
+        The evaluation of the variogram function and the lags are produced
+        internally. This method is convenient when the user wants to access to
+        the lags and the resulting variogram (according to the model provided)
+        for further analysis.
+
+        Returns
+        -------
+        (tuple) tuple containing:
+            lags (array) - the lags at which the variogram was evaluated
+            variogram (array) - the variogram function evaluated at the lags
+        """
+        return (
+            self.lags,
+            self.variogram_function(self.variogram_model_parameters, self.lags),
+        )
+
+    def switch_verbose(self):
+        """Allows user to switch code talk-back on/off. Takes no arguments."""
+        self.verbose = not self.verbose
+
+    def switch_plotting(self):
+        """Allows user to switch plot display on/off. Takes no arguments."""
+        self.enable_plotting = not self.enable_plotting
+
+    def get_epsilon_residuals(self):
+        """Returns the epsilon residuals for the variogram fit."""
+        return self.epsilon
+
+    def plot_epsilon_residuals(self):
+        """Plots the epsilon residuals for the variogram fit."""
+        import matplotlib.pyplot as plt
+
+        fig = plt.figure()
+        ax = fig.add_subplot(111)
+        ax.scatter(range(self.epsilon.size), self.epsilon, c="k", marker="*")
+        ax.axhline(y=0.0)
+        plt.show()
+
+    def get_statistics(self):
+        """Returns the Q1, Q2, and cR statistics for the variogram fit
+        (in that order). No arguments.
+        """
+        return self.Q1, self.Q2, self.cR
+
+    def print_statistics(self):
+        """Prints out the Q1, Q2, and cR statistics for the variogram fit.
+        NOTE that ideally Q1 is close to zero, Q2 is close to 1,
+        and cR is as small as possible.
+        """
+        print("Q1 =", self.Q1)
+        print("Q2 =", self.Q2)
+        print("cR =", self.cR)
+
+    def _get_kriging_matrix(self, n, n_withdrifts):
+        """Assembles the kriging matrix."""
+
+        xy = np.concatenate(
+            (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
+        )
+        d = cdist(xy, xy, "euclidean")
+        if self.UNBIAS:
+            a = np.zeros((n_withdrifts + 1, n_withdrifts + 1))
+        else:
+            a = np.zeros((n_withdrifts, n_withdrifts))
+        a[:n, :n] = -self.variogram_function(self.variogram_model_parameters, d)
+
+        np.fill_diagonal(a, 0.0)
+
+        i = n
+        if self.regional_linear_drift:
+            a[:n, i] = self.X_ADJUSTED
+            a[i, :n] = self.X_ADJUSTED
+            i += 1
+            a[:n, i] = self.Y_ADJUSTED
+            a[i, :n] = self.Y_ADJUSTED
+            i += 1
+        if self.point_log_drift:
+            for well_no in range(self.point_log_array.shape[0]):
+                log_dist = np.log(
+                    np.sqrt(
+                        (self.X_ADJUSTED - self.point_log_array[well_no, 0]) ** 2
+                        + (self.Y_ADJUSTED - self.point_log_array[well_no, 1]) ** 2
+                    )
+                )
+                if np.any(np.isinf(log_dist)):
+                    log_dist[np.isinf(log_dist)] = -100.0
+                a[:n, i] = -self.point_log_array[well_no, 2] * log_dist
+                a[i, :n] = -self.point_log_array[well_no, 2] * log_dist
+                i += 1
+        if self.external_Z_drift:
+            a[:n, i] = self.z_scalars
+            a[i, :n] = self.z_scalars
+            i += 1
+        if self.specified_drift:
+            for arr in self.specified_drift_data_arrays:
+                a[:n, i] = arr
+                a[i, :n] = arr
+                i += 1
+        if self.functional_drift:
+            for func in self.functional_drift_terms:
+                a[:n, i] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
+                a[i, :n] = func(self.X_ADJUSTED, self.Y_ADJUSTED)
+                i += 1
+        if i != n_withdrifts:
+            warnings.warn(
+                "Error in creating kriging matrix. Kriging may fail.", RuntimeWarning
+            )
+        if self.UNBIAS:
+            a[n_withdrifts, :n] = 1.0
+            a[:n, n_withdrifts] = 1.0
+            a[n : n_withdrifts + 1, n : n_withdrifts + 1] = 0.0
+
+        return a
+
+    def _exec_vector(self, a, bd, xy, xy_orig, mask, n_withdrifts, spec_drift_grids):
+        """Solves the kriging system as a vectorized operation. This method
+        can take a lot of memory for large grids and/or large datasets."""
+
+        npt = bd.shape[0]
+        n = self.X_ADJUSTED.shape[0]
+        zero_index = None
+        zero_value = False
+
+        # use the desired method to invert the kriging matrix
+        if self.pseudo_inv:
+            a_inv = P_INV[self.pseudo_inv_type](a)
+        else:
+            a_inv = scipy.linalg.inv(a)
+
+        if np.any(np.absolute(bd) <= self.eps):
+            zero_value = True
+            zero_index = np.where(np.absolute(bd) <= self.eps)
+
+        if self.UNBIAS:
+            b = np.zeros((npt, n_withdrifts + 1, 1))
+        else:
+            b = np.zeros((npt, n_withdrifts, 1))
+        b[:, :n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
+        if zero_value and self.exact_values:
+            b[zero_index[0], zero_index[1], 0] = 0.0
+
+        i = n
+        if self.regional_linear_drift:
+            b[:, i, 0] = xy[:, 0]
+            i += 1
+            b[:, i, 0] = xy[:, 1]
+            i += 1
+        if self.point_log_drift:
+            for well_no in range(self.point_log_array.shape[0]):
+                log_dist = np.log(
+                    np.sqrt(
+                        (xy[:, 0] - self.point_log_array[well_no, 0]) ** 2
+                        + (xy[:, 1] - self.point_log_array[well_no, 1]) ** 2
+                    )
+                )
+                if np.any(np.isinf(log_dist)):
+                    log_dist[np.isinf(log_dist)] = -100.0
+                b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
+                i += 1
+        if self.external_Z_drift:
+            # masked points may well lie outside of the external drift grid
+            b[~mask, i, 0] = self._calculate_data_point_zscalars(
+                xy_orig[~mask, 0], xy_orig[~mask, 1]
+            )
+            i += 1
+        if self.specified_drift:
+            for spec_vals in spec_drift_grids:
+                b[:, i, 0] = spec_vals.flatten()
+                i += 1
+        if self.functional_drift:
+            for func in self.functional_drift_terms:
+                b[:, i, 0] = func(xy[:, 0], xy[:, 1])
+                i += 1
+        if i != n_withdrifts:
+            warnings.warn(
+                "Error in setting up kriging system. Kriging may fail.",
+                RuntimeWarning,
+            )
+        if self.UNBIAS:
+            b[:, n_withdrifts, 0] = 1.0
+
+        if (~mask).any():
+            mask_b = np.repeat(
+                mask[:, np.newaxis, np.newaxis], n_withdrifts + 1, axis=1
+            )
+            b = np.ma.array(b, mask=mask_b)
+
+        if self.UNBIAS:
+            x = (
+                np.dot(a_inv, b.reshape((npt, n_withdrifts + 1)).T)
+                .reshape((1, n_withdrifts + 1, npt))
+                .T
+            )
+        else:
+            x = (
+                np.dot(a_inv, b.reshape((npt, n_withdrifts)).T)
+                .reshape((1, n_withdrifts, npt))
+                .T
+            )
+        zvalues = np.sum(x[:, :n, 0] * self.Z, axis=1)
+        sigmasq = np.sum(x[:, :, 0] * -b[:, :, 0], axis=1)
+
+        return zvalues, sigmasq
+
+    def _exec_loop(self, a, bd_all, xy, xy_orig, mask, n_withdrifts, spec_drift_grids):
+        """Solves the kriging system by looping over all specified points.
+        Less memory-intensive, but involves a Python-level loop."""
+
+        npt = bd_all.shape[0]
+        n = self.X_ADJUSTED.shape[0]
+        zvalues = np.zeros(npt)
+        sigmasq = np.zeros(npt)
+
+        # use the desired method to invert the kriging matrix
+        if self.pseudo_inv:
+            a_inv = P_INV[self.pseudo_inv_type](a)
+        else:
+            a_inv = scipy.linalg.inv(a)
+
+        for j in np.nonzero(~mask)[
+            0
+        ]:  # Note that this is the same thing as range(npt) if mask is not defined,
+            bd = bd_all[j]  # otherwise it takes the non-masked elements.
+            if np.any(np.absolute(bd) <= self.eps):
+                zero_value = True
+                zero_index = np.where(np.absolute(bd) <= self.eps)
+            else:
+                zero_index = None
+                zero_value = False
+
+            if self.UNBIAS:
+                b = np.zeros((n_withdrifts + 1, 1))
+            else:
+                b = np.zeros((n_withdrifts, 1))
+            b[:n, 0] = -self.variogram_function(self.variogram_model_parameters, bd)
+            if zero_value and self.exact_values:
+                b[zero_index[0], 0] = 0.0
+
+            i = n
+            if self.regional_linear_drift:
+                b[i, 0] = xy[j, 0]
+                i += 1
+                b[i, 0] = xy[j, 1]
+                i += 1
+            if self.point_log_drift:
+                for well_no in range(self.point_log_array.shape[0]):
+                    log_dist = np.log(
+                        np.sqrt(
+                            (xy[j, 0] - self.point_log_array[well_no, 0]) ** 2
+                            + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
+                        )
+                    )
+                    if np.isinf(log_dist):
+                        log_dist = -100.0
+                    b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
+                    i += 1
+            if self.external_Z_drift:
+                b[i, 0] = self._calculate_data_point_zscalars(
+                    xy_orig[j, 0], xy_orig[j, 1], type_="scalar"
+                )
+                i += 1
+            if self.specified_drift:
+                for spec_vals in spec_drift_grids:
+                    b[i, 0] = spec_vals.flatten()[j]
+                    i += 1
+            if self.functional_drift:
+                for func in self.functional_drift_terms:
+                    b[i, 0] = func(xy[j, 0], xy[j, 1])
+                    i += 1
+            if i != n_withdrifts:
+                warnings.warn(
+                    "Error in setting up kriging system. Kriging may fail.",
+                    RuntimeWarning,
+                )
+            if self.UNBIAS:
+                b[n_withdrifts, 0] = 1.0
+
+            x = np.dot(a_inv, b)
+            zvalues[j] = np.sum(x[:n, 0] * self.Z)
+            sigmasq[j] = np.sum(x[:, 0] * -b[:, 0])
+
+        return zvalues, sigmasq
+
+    def execute(
+        self,
+        style,
+        xpoints,
+        ypoints,
+        mask=None,
+        backend="vectorized",
+        specified_drift_arrays=None,
+    ):
+        """Calculates a kriged grid and the associated variance.
+        Includes drift terms.
+
+        Parameters
+        ----------
+        style : str
+            Specifies how to treat input kriging points. Specifying 'grid'
+            treats xpoints and ypoints as two arrays of x and y coordinates
+            that define a rectangular grid. Specifying 'points' treats xpoints
+            and ypoints as two arrays that provide coordinate pairs at which
+            to solve the kriging system. Specifying 'masked' treats xpoints and
+            ypoints as two arrays of x and y coordinates that define a
+            rectangular grid and uses mask to only evaluate specific points
+            in the grid.
+        xpoints : array_like, shape (N,) or (N, 1)
+            If style is specific as 'grid' or 'masked', x-coordinates of
+            MxN grid. If style is specified as 'points', x-coordinates of
+            specific points at which to solve kriging system.
+        ypoints : array-like, shape (M,) or (M, 1)
+            If style is specified as 'grid' or 'masked', y-coordinates of
+            MxN grid. If style is specified as 'points', y-coordinates of
+            specific points at which to solve kriging system.
+            Note that in this case, xpoints and ypoints must have the same
+            dimensions (i.e., M = N).
+        mask : boolean array, shape (M, N), optional
+            Specifies the points in the rectangular grid defined by xpoints and
+            ypoints that are to be excluded in the kriging calculations.
+            Must be provided if style is specified as 'masked'. False indicates
+            that the point should not be masked, so the kriging system will be
+            solved at the point. True indicates that the point should be masked,
+            so the kriging system should will not be solved at the point.
+        backend : str, optional
+            Specifies which approach to use in kriging. Specifying 'vectorized'
+            will solve the entire kriging problem at once in a vectorized
+            operation. This approach is faster but also can consume a
+            significant amount of memory for large grids and/or large datasets.
+            Specifying 'loop' will loop through each point at which the kriging
+            system is to be solved. This approach is slower but also less
+            memory-intensive. Default is 'vectorized'.
+            Note that Cython backend is not supported for UK.
+        specified_drift_arrays : list of array-like objects, optional
+            Specifies the drift values at the points at which the kriging
+            system is to be evaluated. Required if 'specified' drift provided
+            in the list of drift terms when instantiating the UniversalKriging
+            class. Must be a list of arrays in the same order as the list
+            provided when instantiating the kriging object. Array(s) must be
+            the same dimension as the specified grid or have the same number of
+            points as the specified points; i.e., the arrays either must be
+            shape (M, N), where M is the number of y grid-points and N is the
+            number of x grid-points, or shape (M, ) or (N, 1), where M is the
+            number of  points at which to evaluate the kriging system.
+
+        Returns
+        -------
+        zvalues : ndarray, shape (M, N) or (N, 1)
+            Z-values of specified grid or at the specified set of points.
+            If style was specified as 'masked', zvalues will be a numpy
+            masked array.
+        sigmasq : ndarray, shape (M, N) or (N, 1)
+            Variance at specified grid points or at the specified set of points.
+            If style was specified as 'masked', sigmasq will be a numpy
+            masked array.
+        """
+
+        if self.verbose:
+            print("Executing Universal Kriging...\n")
+
+        if style != "grid" and style != "masked" and style != "points":
+            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
+
+        n = self.X_ADJUSTED.shape[0]
+        n_withdrifts = n
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        nx = xpts.size
+        ny = ypts.size
+        if self.regional_linear_drift:
+            n_withdrifts += 2
+        if self.point_log_drift:
+            n_withdrifts += self.point_log_array.shape[0]
+        if self.external_Z_drift:
+            n_withdrifts += 1
+        if self.specified_drift:
+            n_withdrifts += len(self.specified_drift_data_arrays)
+        if self.functional_drift:
+            n_withdrifts += len(self.functional_drift_terms)
+        a = self._get_kriging_matrix(n, n_withdrifts)
+
+        if style in ["grid", "masked"]:
+            if style == "masked":
+                if mask is None:
+                    raise IOError(
+                        "Must specify boolean masking array when style is 'masked'."
+                    )
+                mask = np.asarray(mask, dtype=bool)
+                if mask.shape[0] != ny or mask.shape[1] != nx:
+                    if mask.shape[0] == nx and mask.shape[1] == ny:
+                        mask = mask.T
+                    else:
+                        raise ValueError(
+                            "Mask dimensions do not match specified grid dimensions."
+                        )
+                mask = mask.flatten()
+            npt = ny * nx
+            grid_x, grid_y = np.meshgrid(xpts, ypts)
+            xpts = grid_x.flatten()
+            ypts = grid_y.flatten()
+
+        elif style == "points":
+            if xpts.size != ypts.size:
+                raise ValueError(
+                    "xpoints and ypoints must have same "
+                    "dimensions when treated as listing "
+                    "discrete points."
+                )
+            npt = nx
+        else:
+            raise ValueError("style argument must be 'grid', 'points', or 'masked'")
+
+        if specified_drift_arrays is None:
+            specified_drift_arrays = []
+        spec_drift_grids = []
+        if self.specified_drift:
+            if len(specified_drift_arrays) == 0:
+                raise ValueError(
+                    "Must provide drift values for kriging points "
+                    "when using 'specified' drift capability."
+                )
+            if type(specified_drift_arrays) is not list:
+                raise TypeError(
+                    "Arrays for specified drift terms must be "
+                    "encapsulated in a list."
+                )
+            for spec in specified_drift_arrays:
+                spec = np.asarray(spec)
+                if style in ["grid", "masked"]:
+                    if spec.ndim < 2:
+                        raise ValueError(
+                            "Dimensions of drift values array do "
+                            "not match specified grid dimensions."
+                        )
+                    elif spec.shape[0] != ny or spec.shape[1] != nx:
+                        if spec.shape[0] == nx and spec.shape[1] == ny:
+                            spec_drift_grids.append(np.squeeze(spec.T))
+                        else:
+                            raise ValueError(
+                                "Dimensions of drift values array "
+                                "do not match specified grid "
+                                "dimensions."
+                            )
+                    else:
+                        spec_drift_grids.append(np.squeeze(spec))
+                elif style == "points":
+                    if spec.ndim == 2 and spec.shape[1] == 1:
+                        spec = spec[:, 0]
+                    if spec.ndim != 1:
+                        raise ValueError(
+                            "Dimensions of drift values array do "
+                            "not match specified grid dimensions."
+                        )
+                    elif spec.shape[0] != xpts.size:
+                        raise ValueError(
+                            "Number of supplied drift values in "
+                            "array do not match specified number "
+                            "of kriging points."
+                        )
+                    else:
+                        spec_drift_grids.append(np.squeeze(spec))
+            if len(spec_drift_grids) != len(self.specified_drift_data_arrays):
+                raise ValueError(
+                    "Inconsistent number of specified drift terms supplied."
+                )
+        else:
+            if len(specified_drift_arrays) != 0:
+                warnings.warn(
+                    "Provided specified drift values, but "
+                    "'specified' drift was not initialized during "
+                    "instantiation of UniversalKriging class.",
+                    RuntimeWarning,
+                )
+
+        xy_points_original = np.concatenate(
+            (xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1
+        )
+        xpts, ypts = _adjust_for_anisotropy(
+            np.vstack((xpts, ypts)).T,
+            [self.XCENTER, self.YCENTER],
+            [self.anisotropy_scaling],
+            [self.anisotropy_angle],
+        ).T
+        xy_points = np.concatenate((xpts[:, np.newaxis], ypts[:, np.newaxis]), axis=1)
+        xy_data = np.concatenate(
+            (self.X_ADJUSTED[:, np.newaxis], self.Y_ADJUSTED[:, np.newaxis]), axis=1
+        )
+
+        if style != "masked":
+            mask = np.zeros(npt, dtype="bool")
+
+        bd = cdist(xy_points, xy_data, "euclidean")
+        if backend == "vectorized":
+            zvalues, sigmasq = self._exec_vector(
+                a,
+                bd,
+                xy_points,
+                xy_points_original,
+                mask,
+                n_withdrifts,
+                spec_drift_grids,
+            )
+        elif backend == "loop":
+            zvalues, sigmasq = self._exec_loop(
+                a,
+                bd,
+                xy_points,
+                xy_points_original,
+                mask,
+                n_withdrifts,
+                spec_drift_grids,
+            )
+        else:
+            raise ValueError(
+                "Specified backend {} is not supported "
+                "for 2D universal kriging.".format(backend)
+            )
+
+        if style == "masked":
+            zvalues = np.ma.array(zvalues, mask=mask)
+            sigmasq = np.ma.array(sigmasq, mask=mask)
+
+        if style in ["masked", "grid"]:
+            zvalues = zvalues.reshape((ny, nx))
+            sigmasq = sigmasq.reshape((ny, nx))
+
+        return zvalues, sigmasq
-- 
2.43.0


From efdade8d879d922f994754a686401b9079cc516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 39/53] fix: automatic variogram fit failed for semivariances
 below about 1e-10

The solver moves the initial guess to an absolute distance of 1e-10 from the bounds.
---
 src/pykrige/core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index ffd417a..d399425 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -638,6 +638,11 @@ def _calculate_variogram_model(
     the sill will always be greater than the nugget...
     """
 
+    # fit semivariances of order one: the solver keeps the initial guess at an
+    # absolute distance from the bounds, far off if the semivariances are tiny
+    unit = np.amax(semivariance) or 1.0
+    semivariance = semivariance / unit
+
     if variogram_model == "linear":
         x0 = [
             (np.amax(semivariance) - np.amin(semivariance))
@@ -671,6 +676,7 @@ def _calculate_variogram_model(
         x0,
         bounds=bnds,
         loss=_soft_l1,
+        f_scale=1.0 / unit,
         # the tolerance on the gradient is absolute: the fit would stop at the
         # initial guess if the semivariances are small
         gtol=None,
@@ -678,6 +684,8 @@ def _calculate_variogram_model(
         args=(lags, semivariance, variogram_function, weight),
     )
 
+    # the parameters that are semivariances (per distance)
+    res.x[[0, -1]] *= unit
     return res.x
 
 
-- 
2.43.0


From dafae386fc2132851050fd5bd2f2dbb4381071fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 40/53] fix: variogram statistics left out small variances and
 kept rounding errors of large ones

---
 src/pykrige/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index d399425..46599f5 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -791,6 +791,11 @@ def _krige(
     zinterp = np.sum(res[:n, 0] * y)
     sigmasq = np.sum(res[:, 0] * -b[:, 0])
 
+    # zero up to rounding errors, which scale with the semivariances
+    scale = max(np.amax(np.absolute(a[:n, :n])), np.amax(np.absolute(b[:n, 0])))
+    if np.absolute(sigmasq) <= eps * scale:
+        sigmasq = 0.0
+
     return zinterp, sigmasq
 
 
@@ -858,7 +863,7 @@ def _find_statistics(
             # the evaluation point X[i, :] is really close to one of the
             # kriging system points in X[:i, :]...
             # in the case of zero estimation error, the results are not stored
-            if np.absolute(ss) < eps:
+            if ss == 0.0:
                 continue
 
             delta[i] = y[i] - k
@@ -867,8 +872,8 @@ def _find_statistics(
     # only use non-zero entries in these arrays... sigma is used to pull out
     # non-zero entries in both cases because it is guaranteed to be positive,
     # whereas delta can be either positive or negative
-    delta = delta[sigma > eps]
-    sigma = sigma[sigma > eps]
+    delta = delta[sigma > 0.0]
+    sigma = sigma[sigma > 0.0]
     epsilon = delta / sigma
 
     return delta, sigma, epsilon
-- 
2.43.0


From 5c4d5ee974643722d4e83355a8e00e514338c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 41/53] fix: geographic distances were computed in the type of
 the evaluation points' coordinates

---
 src/pykrige/ok.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 35af3b9..153550f 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -847,8 +847,8 @@ class OrdinaryKriging:
             # there can't be more neighbors than data points
             n_closest_points = min(n_closest_points, self.X_ADJUSTED.shape[0])
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, dtype=np.float64)))
+        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, dtype=np.float64)))
         n = self.X_ADJUSTED.shape[0]
         nx = xpts.size
         ny = ypts.size
-- 
2.43.0


From dd9a00c9ae211fae89a83f8711f990d6136684bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 42/53] fix: Krige.execute added its settings to the user's
 dictionary of points

---
 src/pykrige/compat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/compat.py b/src/pykrige/compat.py
index d0ca37c..7edac08 100644
--- a/src/pykrige/compat.py
+++ b/src/pykrige/compat.py
@@ -282,7 +282,7 @@ class Krige(RegressorMixin, BaseEstimator):
         """
         default_kw = dict(style="points", backend="loop")
         default_kw.update(kwargs)
-        points.update(default_kw)
+        points = dict(points, **default_kw)
         if isinstance(self.model, (OrdinaryKriging, OrdinaryKriging3D)):
             points.update(dict(n_closest_points=self.n_closest_points))
         else:
-- 
2.43.0


From 788590955faeff2d63a473d1d6c01a5aceca0027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:09 +0000
Subject: [PATCH 43/53] fix: write_asc_grid wrote digit grouping separators
 into the header in some locales

---
 src/pykrige/kriging_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 84a74b5..8bb08b1 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -103,16 +103,16 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
     with io.open(filename, "w") as f:
         if style == 1:
-            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
-            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
+            f.write("NCOLS          " + "{:<10d}".format(ncols) + "\n")
+            f.write("NROWS          " + "{:<10d}".format(nrows) + "\n")
             f.write("XLLCENTER      " + "{:<10}".format(xllcenter) + "\n")
             f.write("YLLCENTER      " + "{:<10}".format(yllcenter) + "\n")
             f.write("DX             " + "{:<10}".format(dx) + "\n")
             f.write("DY             " + "{:<10}".format(dy) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         elif style == 2:
-            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
-            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
+            f.write("NCOLS          " + "{:<10d}".format(ncols) + "\n")
+            f.write("NROWS          " + "{:<10d}".format(nrows) + "\n")
             f.write("XLLCORNER      " + "{:<10}".format(xllcorner) + "\n")
             f.write("YLLCORNER      " + "{:<10}".format(yllcorner) + "\n")
             f.write("CELLSIZE       " + "{:<10}".format(cellsize) + "\n")
-- 
2.43.0


From df0ef9535aa37eb95d63ba58e7a12ca846188e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:48 +0000
Subject: [PATCH 44/53] fix: an update interrupted by Ctrl-C (or another
 BaseException) left the object half updated

---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 46599f5..4f8eb7c 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -44,7 +44,7 @@ def _restore_on_error(method):
         state = self.__dict__.copy()
         try:
             return method(self, *args, **kwargs)
-        except Exception:
+        except BaseException:  # also when interrupted from the keyboard
             self.__dict__.clear()
             self.__dict__.update(state)
             raise
-- 
2.43.0


From 00035982a13ae653b7afacc29fcca55220bbef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:48 +0000
Subject: [PATCH 45/53] fix: an interrupt while the extension was being loaded
 was turned into a RuntimeError

---
 src/pykrige/ok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 153550f..69344bf 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -924,7 +924,7 @@ class OrdinaryKriging:
                     "   Falling back to a pure python backend..."
                 )
                 backend = "loop"
-            except:
+            except Exception:
                 raise RuntimeError("Unknown error in trying to load Cython extension.")
 
             c_pars = {
-- 
2.43.0


From 289f2f11712c7c5862a2cb03b22b57f41e65e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:22 +0000
Subject: [PATCH 46/53] fix: spherical variogram models turned distances that
 are not a number into semivariances

---
 src/pykrige/lib/variogram_models.pyx | 4 +++-
 src/pykrige/variogram_models.py      | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/lib/variogram_models.pyx b/src/pykrige/lib/variogram_models.pyx
index b3475d6..d976aed 100644
--- a/src/pykrige/lib/variogram_models.pyx
+++ b/src/pykrige/lib/variogram_models.pyx
@@ -80,5 +80,7 @@ cdef void _c_spherical_variogram_model(
     for k in range(n):
         if dist[k] < b:
             out[k] = a*((3*dist[k])/(2*b) - (dist[k]**3)/(2*b**3)) + c
-        else:
+        elif dist[k] >= b:
             out[k] = a + c
+        else:  # one of them is not a number
+            out[k] = dist[k] + b
diff --git a/src/pykrige/variogram_models.py b/src/pykrige/variogram_models.py
index 9560de5..1c5f514 100755
--- a/src/pykrige/variogram_models.py
+++ b/src/pykrige/variogram_models.py
@@ -67,6 +67,7 @@ def spherical_variogram_model(m, d):
             * ((3.0 * x) / (2.0 * range_) - (x**3.0) / (2.0 * range_**3.0))
             + nugget,
             psill + nugget,
+            np.nan,  # neither for distances that are not a number
         ],
     )
 
-- 
2.43.0


From 4335d59f72cc21da386ce5f8bc944a35ce552a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:30 +0000
Subject: [PATCH 47/53] fix: Krige refused the documented one-value anisotropy
 tuples of two-dimensional kriging

---
 src/pykrige/compat.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/compat.py b/src/pykrige/compat.py
index 7edac08..dd68b2d 100644
--- a/src/pykrige/compat.py
+++ b/src/pykrige/compat.py
@@ -213,11 +213,6 @@ class Krige(RegressorMixin, BaseEstimator):
             anisotropy_angle=self.anisotropy_angle[0],
             enable_statistics=self.enable_statistics,
             coordinates_type=self.coordinates_type,
-            anisotropy_scaling_y=self.anisotropy_scaling[0],
-            anisotropy_scaling_z=self.anisotropy_scaling[1],
-            anisotropy_angle_x=self.anisotropy_angle[0],
-            anisotropy_angle_y=self.anisotropy_angle[1],
-            anisotropy_angle_z=self.anisotropy_angle[2],
             drift_terms=self.drift_terms,
             point_drift=self.point_drift,
             external_drift=self.ext_drift_grid[0],
@@ -225,6 +220,14 @@ class Krige(RegressorMixin, BaseEstimator):
             external_drift_y=self.ext_drift_grid[2],
             functional_drift=self.functional_drift,
         )
+        if self.method in threed_krige:
+            add_setup.update(
+                anisotropy_scaling_y=self.anisotropy_scaling[0],
+                anisotropy_scaling_z=self.anisotropy_scaling[1],
+                anisotropy_angle_x=self.anisotropy_angle[0],
+                anisotropy_angle_y=self.anisotropy_angle[1],
+                anisotropy_angle_z=self.anisotropy_angle[2],
+            )
         for kw in krige_methods_kws[self.method]:
             setup[kw] = add_setup[kw]
         input_kw = self._dimensionality_check(x)
-- 
2.43.0


From 7cbae59b5711fc9dffb1d4ec95ff3a8f4144cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:13 +0000
Subject: [PATCH 48/53] fix: anisotropy settings of other float types changed
 the precision of the coordinates (longdouble: C backend raised)

---
 src/pykrige/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 4f8eb7c..e2d7b26 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -159,7 +159,9 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
     """
 
     center = np.asarray(center)[None, :]
-    angle = np.asarray(angle) * np.pi / 180
+    # in double precision, whatever type of number is given
+    angle = np.multiply(angle, np.pi, dtype=np.float64) / 180
+    scaling = np.multiply(scaling, 1.0, dtype=np.float64)
 
     X = np.asarray(X, dtype=np.float64) - center
 
-- 
2.43.0


From 5ef86ceb6e78f189280ed3c623e6e74d35574edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:58 +0000
Subject: [PATCH 49/53] fix: grid writers computed spacing and corners in the
 type of the coordinate arrays (overflow of narrow integers, rounding of half
 precision)

---
 src/pykrige/kriging_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 8bb08b1..ff0ba37 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -47,8 +47,8 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
     if np.ma.is_masked(z):
         z = z.astype(float).filled(no_data)
 
-    x = np.squeeze(np.array(x))
-    y = np.squeeze(np.array(y))
+    x = np.squeeze(np.array(x, dtype=np.float64))
+    y = np.squeeze(np.array(y, dtype=np.float64))
     z = np.squeeze(np.array(z))
     nrows = z.shape[0]
     ncols = z.shape[1]
@@ -282,8 +282,8 @@ def write_zmap_grid(
     if np.ma.is_masked(z):
         z = z.astype(float).filled(no_data)
 
-    x = np.squeeze(np.array(x))
-    y = np.squeeze(np.array(y))
+    x = np.squeeze(np.array(x, dtype=np.float64))
+    y = np.squeeze(np.array(y, dtype=np.float64))
     z = np.squeeze(np.array(z))
     nx = len(x)
     ny = len(y)
-- 
2.43.0


From 4b44caadecc845d04101bb2f536b9aca1e04fe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:00 +0000
Subject: [PATCH 50/53] fix: exponential and hole effect models of unsigned
 integer distances wrapped around

---
 src/pykrige/variogram_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/variogram_models.py b/src/pykrige/variogram_models.py
index 1c5f514..73dbb74 100755
--- a/src/pykrige/variogram_models.py
+++ b/src/pykrige/variogram_models.py
@@ -50,7 +50,7 @@ def exponential_variogram_model(m, d):
     psill = float(m[0])
     range_ = float(m[1])
     nugget = float(m[2])
-    return psill * (1.0 - np.exp(-d / (range_ / 3.0))) + nugget
+    return psill * (1.0 - np.exp(-(d / (range_ / 3.0)))) + nugget
 
 
 def spherical_variogram_model(m, d):
@@ -78,6 +78,6 @@ def hole_effect_variogram_model(m, d):
     range_ = float(m[1])
     nugget = float(m[2])
     return (
-        psill * (1.0 - (1.0 - d / (range_ / 3.0)) * np.exp(-d / (range_ / 3.0)))
+        psill * (1.0 - (1.0 - d / (range_ / 3.0)) * np.exp(-(d / (range_ / 3.0))))
         + nugget
     )
-- 
2.43.0


From 1fc78d599c30a3b8b224a3dd3114fc0f63af5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:38 +0000
Subject: [PATCH 51/53] fix: universal kriging without the unbiasedness
 condition (UNBIAS = False) crashed on the vectorized backend

---
 src/pykrige/uk.py   | 4 +---
 src/pykrige/uk3d.py | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 015bfa6..2a9d397 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1005,9 +1005,7 @@ class UniversalKriging:
             b[:, n_withdrifts, 0] = 1.0
 
         if (~mask).any():
-            mask_b = np.repeat(
-                mask[:, np.newaxis, np.newaxis], n_withdrifts + 1, axis=1
-            )
+            mask_b = np.repeat(mask[:, np.newaxis, np.newaxis], b.shape[1], axis=1)
             b = np.ma.array(b, mask=mask_b)
 
         if self.UNBIAS:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index fa9b184..d5e2ea1 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -794,9 +794,7 @@ class UniversalKriging3D:
             b[:, n_withdrifts, 0] = 1.0
 
         if (~mask).any():
-            mask_b = np.repeat(
-                mask[:, np.newaxis, np.newaxis], n_withdrifts + 1, axis=1
-            )
+            mask_b = np.repeat(mask[:, np.newaxis, np.newaxis], b.shape[1], axis=1)
             b = np.ma.array(b, mask=mask_b)
 
         if self.UNBIAS:
-- 
2.43.0


From bf11603bbe2ca8b189dad781019215bf00ba4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:20 +0000
Subject: [PATCH 52/53] fix: write_zmap_grid wrote grids with descending
 coordinates or of another shape wrongly without the warning of write_asc_grid

---
 src/pykrige/kriging_tools.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index ff0ba37..948ee17 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -288,6 +288,19 @@ def write_zmap_grid(
     nx = len(x)
     ny = len(y)
 
+    if z.shape != (y.size, x.size):
+        warnings.warn(
+            "Grid dimensions are not as expected. "
+            "Incorrect *.zmap file generation may result.",
+            RuntimeWarning,
+        )
+    if np.amin(x) != x[0] or np.amin(y) != y[0]:
+        warnings.warn(
+            "Order of X or Y coordinates is not as expected. "
+            "Incorrect *.zmap file generation may result.",
+            RuntimeWarning,
+        )
+
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
 
-- 
2.43.0


From 65b558e0fa4828ce9f0d64a1a78c5cbb8f112da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:20 +0000
Subject: [PATCH 53/53] fix: grid writers took unequal spacings below 1e-8, and
 steps back and forth, for equal ones

---
 src/pykrige/kriging_tools.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 948ee17..43de17e 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -75,15 +75,18 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
-    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(
-        np.abs(np.diff(y)), dy
+    # up to rounding of the coordinates, which may be in any unit
+    atol_x = 4.0 * np.spacing(np.amax(np.abs(x)))
+    atol_y = 4.0 * np.spacing(np.amax(np.abs(y)))
+    if not np.allclose(np.diff(x), x[1] - x[0], atol=atol_x) or not np.allclose(
+        np.diff(y), y[1] - y[0], atol=atol_y
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
         )
     cellsize = -1
     if style == 2:
-        if not np.isclose(dx, dy):
+        if not np.isclose(dx, dy, atol=max(atol_x, atol_y)):
             raise ValueError(
                 "X and Y spacing is not the same. "
                 "Cannot write *.asc file in the specified format."
@@ -304,8 +307,11 @@ def write_zmap_grid(
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
 
-    if not np.allclose(np.abs(np.diff(x)), dx) or not np.allclose(
-        np.abs(np.diff(y)), dy
+    # up to rounding of the coordinates, which may be in any unit
+    atol_x = 4.0 * np.spacing(np.amax(np.abs(x)))
+    atol_y = 4.0 * np.spacing(np.amax(np.abs(y)))
+    if not np.allclose(np.diff(x), x[1] - x[0], atol=atol_x) or not np.allclose(
+        np.diff(y), y[1] - y[0], atol=atol_y
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
-- 
2.43.0

