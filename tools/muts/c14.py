B="common/builder.py"; A="solvers/usl_asflip.py"; MP="material_points/material_points.py";Mp="shapefunctions/mapping.py";U="solvers/usl.py"
M=[
("kern_get","C14",Mp,"kernels[shapefunction][0]","kernels.get(shapefunction, kernels['linear'])[0]",Mp,"kernels[self.shapefunction][1]","kernels.get(shapefunction, kernels['linear'])[1]"),
("kern_swap","C14",Mp,'"quadratic": (vmap_quadratic_shapefunction,','"quadratic": (vmap_linear_shapefunction,'),
("scheme_else","C14",B,'        elif scheme.lower() == "usl_aflip":','        elif scheme.lower() != "usl":'),
("scheme_in","C14",B,'        if scheme.lower() == "usl":','        if scheme.lower() in "usl":'),
("scheme_startswith","C14",B,'        elif scheme.lower() == "usl_aflip":','        elif scheme.lower().startswith("usl_"):'),
("mls_flip","C14",A,"        self.use_mls_update = use_mls_update","        self.use_mls_update = True"),
("dyn_flip","C14",A,"        self.use_dynamic_alpha = use_dynamic_alpha","        self.use_dynamic_alpha = use_dynamic_alpha and use_mls_update"),
("law_none","C14",B,'            raise ValueError("Constitutive law state must be provided for this law.")','            pass'),
("rigid","C14",B,"        if is_rigid:\n","        if is_rigid and len(self.particle_states) > 1:\n"),
("mode","C14","utils/generate_body.py",'raise ValueError','print'),
("R_lower","C14",B,'        if scheme.lower() == "usl":','        name = scheme.lower()\n        if name == "usl":',B,'        elif scheme.lower() == "usl_aflip":','        elif name == "usl_aflip":'),
("R_tab","C14",Mp,"        self._shapefunction_call = kernels[shapefunction][0]","        if shapefunction not in kernels:\n            raise ValueError(shapefunction)\n        self._shapefunction_call, _w = kernels[shapefunction]"),
("R_strip","C14",B,'        if scheme.lower() == "usl":','        scheme = scheme.strip()\n        if scheme.lower() == "usl":'),
]
