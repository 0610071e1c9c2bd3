o="sdf/sdfobject.py"; c="sdf/sdfcollection.py"; g="sdf/gridsdf.py"; h="utils/math_helpers.py"
M=[("rotfwd","C10",o,"rotation_2d_inv(sdf_state.rotation, p_local)","rotation_2d_inv(-sdf_state.rotation, p_local)"),
("quatnoinv","C10",o,"quaternion_rotate(quaternion_inv(sdf_state.rotation), p_local)","quaternion_rotate(sdf_state.rotation, p_local)"),
("cross","C10",o,"jnp.cross(sdf_state.angular_velocity, p_local)","jnp.cross(p_local, sdf_state.angular_velocity)"),
("cross2","C10",o,"-sdf_state.angular_velocity * p_local[1]","sdf_state.angular_velocity * p_local[1]"),
("fric-frame","C10",o,"sdf_state, self.transform_to_local(sdf_state, p_world)\n        )\n","sdf_state, p_world - sdf_state.center_of_mass\n        )\n"),
("capsule","C10",c,"safe_norm(vec_to_axis) - self.radius","safe_norm(vec_to_axis) - self.half_height"),
("domnormal","C10",c,"axis = idx % dim","axis = idx // 2"),
("torus","C10",c,"q_y = pos_local[1]","q_y = pos_local[2]"),
("staridx","C10",c,"jnp.round(angle / (2.0 * an))","jnp.floor(angle / (2.0 * an))"),
("comp-argmin","C10",c,"idx = jnp.argmin(dists)","idx = jnp.argmin(jnp.abs(dists))"),
("boxcorner","C10",c,"inside = jnp.minimum(jnp.max(d), 0.0)","inside = jnp.minimum(jnp.min(d), 0.0)"),
("gridres","C10",g,"jnp.array(self.sdf_data.shape) - 1.0","jnp.array(self.sdf_data.shape) * 1.0"),
("gridscale","C10",g,"dist[0] * self.scale - self.thickness","dist[0] - self.thickness"),
("spherelocal","C10",c,"p_local = pos_world - state.center_of_mass","p_local = pos_world"),
("stacknormal","C10",o,"return jax.vmap(self.get_normal, in_axes=(None, 0))","return -jax.vmap(self.get_normal, in_axes=(None, 0))"),
("posdt","C10",o,"sdf_state.center_of_mass + sdf_state.velocity * dt","sdf_state.center_of_mass + sdf_state.velocity * dt * dt"),
("rotbeforehalf","C10",o,"sdf_state.rotation + sdf_state.angular_velocity * dt","sdf_state.rotation + 0.5 * sdf_state.angular_velocity * dt"),
]
