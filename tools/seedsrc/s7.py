A = 'dedop/proc/sar/algorithms/'
P = 'dedop/proc/sar/processor.py'
L = 'dedop/data/input/l1a/l1a_dataset.py'
S = []
def s(id, edits, needs='x', breaks='y', demo=None):
    d = dict(id=id, property=id[:3], edits=edits, needs=needs, breaks=breaks)
    if demo: d['demo'] = demo
    S.append(d)
s('C01-x-lastlen', [(L, "    def __len__(self):\n        return self._final_index - self._start_index", "    def __len__(self):\n        return self._get_data_size()")])
s('C01-x-enabled', [(L, "               self.cnf.max_lat is not None or\\\n               self.cnf.max_lon is not None", "               self.cnf.max_lat is not None")])
s('C01-x-strict', [(L, "lons <= self.cnf.max_lon", "lons < self.cnf.max_lon")])
s('C01-x-valid', [(L, "        if not self.is_valid(packet):\n            return None\n        return packet", "        if not self.is_valid(packet) and self._roi_filter is None:\n            return None\n        return packet")])
s('C01-x-isclose', [('dedop/data/input/input_dataset.py', "isclose(lat, 0.) and isclose(lon, 0.)", "isclose(lat, 0., abs_tol=1e-3) and isclose(lon, 0., abs_tol=1e-3)")])
s('C02-x-cachekeep', [('dedop/data/input/netcdf_reader.py', "            if chunk_start >= varlen:\n                continue\n", "            if chunk_end > varlen and varname in self.cache:\n                continue\n")])
s('C03-x-zcog', [(L, "zcog = np.cos(radians(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index)))", "zcog = np.cos(radians(self.get_value(L1AVariables.pitch_sral_mispointing_l1a_echo_sar_ku, index)))")])
s('C03-x-zcogdeg', [(L, "zcog = np.cos(radians(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index)))", "zcog = np.cos(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index))")])
s('C03-x-power', [(L, "scale_factor = pow(10., -agc / 20.)", "scale_factor = pow(10., -(agc // 1) / 20.)")])
s('C03-x-dopsign', [('dedop/model/l1a_processing_data.py', "        if self.doppler_angle_sar_sat < self.cst.pi / 2:", "        if self.alt_rate_sat_sar < 0:")])
s('C03-x-roll', [(L, "yaw_sar=radians(self.get_value(L1AVariables.yaw_sral_mispointing_l1a_echo_sar_ku, index))", "yaw_sar=radians(self.get_value(L1AVariables.yaw_sat_pointing_l1a_echo_sar_ku, index))")])
s('C04-x-cal2', [(P, "                        self.cal1_algorithm(input_packet)\n                        self.cal2_algorithm(input_packet)\n", "                        self.cal1_algorithm(input_packet)\n                    self.cal2_algorithm(input_packet)\n")])
s('C04-x-gapthr', [(P, "input_packet.time_sar_ku - prev_time < self.gap_threshold", "abs(input_packet.time_sar_ku - prev_time) < self.gap_threshold")])
s('C04-x-order', [(P, "                        if not self.beam_angles_algorithm.work_location_seen:\n                            break\n", "                        if not self.beam_angles_algorithm.work_location_seen and not gap_processing:\n                            break\n")])
s('C05-x-clear', [(P, "            if self.source_isps[0].counter == current_surface.stack_all_bursts[0].counter:", "            if self.source_isps[0].counter == current_surface.stack_bursts[0].counter:")])
s('C05-x-gapthin', [(P, "if working_loc.data_stack_size < (self.cnf.n_looks_stack // 2):", "if working_loc.data_stack_size < self.cnf.n_looks_stack / 2:")])
s('C07-x-utc', [(A+'surface_locations.py', "        self.prev_utc_days = isp_prev.days\n", "        self.prev_utc_days = isp_curr.days\n")])
s('C07-x-alpha', [(A+'surface_locations.py', "                (ground_surf_orbit_angle - ground_surf_orbit_angle_prev)", "                max(ground_surf_orbit_angle - ground_surf_orbit_angle_prev, 1e-5)")])
s('C07-x-satorigin', [(A+'surface_locations.py', "            [[isp_prev.x_sar_surf - surface.x_sat, ],\n             [isp_prev.y_sar_surf - surface.y_sat, ],\n             [isp_prev.z_sar_surf - surface.z_sat, ]],", "            [[isp_prev.x_sar_surf - isp_prev.x_sar_sat, ],\n             [isp_prev.y_sar_surf - isp_prev.y_sar_sat, ],\n             [isp_prev.z_sar_surf - isp_prev.z_sar_sat, ]],")])
s('C07-x-res', [('dedop/model/surface_data.py', "np.arcsin(\n            self.cst.c / (2. * self.chd.freq_ku * norm(vel_sat) * self.chd.n_ku_pulses_burst * pri_sar)\n        )", "np.arctan(\n            self.cst.c / (2. * self.chd.freq_ku * norm(vel_sat) * self.chd.n_ku_pulses_burst * pri_sar)\n        )")])
s('C07-x-windelay', [(A+'surface_locations.py', "        self.win_delay_surf = (self.alt_sat - self.alt_surf) * 2. / self.cst.c\n", "        self.win_delay_surf = isp_prev.win_delay_sar_ku + \\\n            alpha * (isp_curr.win_delay_sar_ku - isp_prev.win_delay_sar_ku)\n")])
s('C08-x-twice', [(A+'surface_locations.py', "        isp_record = isps[-1]\n\n        self.time_surf", "        isp_record = isps[-1]\n        self.focus_found = False\n\n        self.time_surf")])
s('C08-x-wd', [(A+'surface_locations.py', "            (surface_to_move.alt_sat - surface_to_move.alt_surf) * 2. / self.cst.c\n", "            np.linalg.norm(np.subtract(surface_to_move.ecef_sat, surface_to_move.ecef_surf)) * 2. / self.cst.c\n")])
s('C08-x-first', [(A+'surface_locations.py', "if len(surfaces) > 1 and not self.focus_found", "if len(surfaces) > 2 and not self.focus_found")])
s('C08-x-ge', [(A+'surface_locations.py', "                if prev_loc.focus_target_distance is None:\n", "                if not prev_loc.focus_target_distance:\n")])
s('C08-x-lon', [(A+'surface_locations.py', "        surface_to_move.lon_surf = focus_lon\n", "        surface_to_move.lon_surf = normalize(focus_lon, self.cst)\n")])
s('C09-x-pop', [(A+'beam_angles.py', "                    self.beam_angles.pop(0)\n                    self.surfaces_seen.pop(0)\n", "                    self.beam_angles.pop()\n                    self.surfaces_seen.pop()\n")])
s('C09-x-seenflag', [(A+'beam_angles.py', "                if work_location == surface:\n                    self.work_location_seen = True\n", "            if work_location == surface:\n                self.work_location_seen = True\n")])
s('C09-x-lastindex', [(P, "                last_index += 1\n\n                if curr", "                if curr")])
s('C09-x-angleclip', [(A+'beam_angles.py', "q_min <= beam_angle_tangent <= q_max", "q_min <= beam_angle <= q_max")])
s('C09-x-abs', [('dedop/model/surface_data.py', "        if beam_angle_trend == 1:\n", "        if beam_angle_trend >= 0:\n")])
s('C09-x-trend', [('dedop/model/l1a_processing_data.py', "            self.beam_angles_trend = prev_beam_angles_trend", "            self.beam_angles_trend = prev_beam_angles_trend or 1")])
s('C10-x-pid', [(A+'stack_gathering.py', "            if closest_burst_beam_angle is None or\\\n               burst_beam_angle < closest", "            if closest_burst_beam_angle is None or\\\n               burst_beam_angle <= closest")])
s('C10-x-closestlook', [(A+'stack_gathering.py', "burst_beam_angle = abs(beam_angle - self.cst.pi / 2.)", "burst_beam_angle = abs(look_angle_beam)")])
s('C10-x-order', [(A+'stack_gathering.py', "np.abs(look_angles_all)\n", "np.abs(look_angles_all), kind='stable'\n")])
s('C10-x-roll', [(A+'stack_gathering.py', "look_angle_beam - stack_burst.pitch_sar", "look_angle_beam - stack_burst.roll_sar")])
s('C11-x-nadir', [(A+'azimuth_processing.py', "            if beam_angles_list_size <= half_pulses:\n", "            if beam_angles_list_size < half_pulses:\n")])
s('C11-x-hann', [(A+'azimuth_processing.py', "start = centre - (width // 2)", "start = max(centre - (width // 2) - 1, 0)")])
s('C11-x-windowed', [(A+'azimuth_processing.py', "self.compute_exact_method(packet, windowed_wfm, wavelength_ku)\n        else", "self.compute_exact_method(packet, packet.waveform_cor_sar, wavelength_ku)\n        else")])
s('C12-x-t0', [(A+'geometry_corrections.py', "slant_range_correction_time / working_surface_location.t0_surf[beam_index]", "slant_range_correction_time / self.chd.t0_nom")])
s('C12-x-beamkind', [(A+'geometry_corrections.py', "np.cos(working_surface_location.beam_angles_surf[beam_index])", "np.sin(working_surface_location.look_angles_surf[beam_index])")])
s('C12-x-vel', [(A+'geometry_corrections.py', "            norm(stack_burst.vel_sat_sar) *\\\n", "            norm(working_surface_location.vel_sat) *\\\n")])
s('C13-x-iq', [(A+'range_compression.py', "self.beam_range_compr_iq[beam_index, :] = beam_shift", "self.beam_range_compr_iq[beam_index, :] = beam_fft")])
s('C13-x-norm', [(A+'range_compression.py', "                n=padded_size, norm=\"ortho\"\n            )", "                n=padded_size\n            ) / np.sqrt(self.chd.n_samples_sar)")])
s('C14-x-limit', [(A+'stack_masking.py', "        if self.chd.look_angle_mask_min is None or\\\n           self.chd.look_angle_mask_max is None:\n", "        if not self.chd.look_angle_mask_min or\\\n           not self.chd.look_angle_mask_max:\n")])
s('C14-x-all', [(A+'stack_masking.py', "            if shift_coarse > 0:\n", "            if shift > 0:\n")])
s('C14-x-vector', [(A+'stack_masking.py', "beam_size - i\n", "beam_size - i - 1\n")])
s('C14-x-default', [(A+'stack_masking.py', ") * (beam_size - 1)\n", ") * beam_size\n")])
s('C15-x-counter', [(A+'multilooking.py', "self.sample_counter[:] += mask\n", "self.sample_counter[:] += 1\n")])
s('C15-x-weights', [(A+'multilooking.py', "alpha = (angle - self.chd.antenna_angles[index_left]) / self.chd.antenna_angles_spacing", "alpha = weight_index - round(weight_index)")])
s('C15-x-aw', [(A+'multilooking.py', "pointing_angle = surface.pointing_angles_surf[beam_index]\n", "pointing_angle = surface.look_angles_surf[beam_index]\n")])
s('C15-x-stopbeam', [(A+'multilooking.py', "            surface.stack_bursts[max_stack-1].source_seq_count", "            surface.stack_bursts[stop_beam_index].source_seq_count")])
s('C15-x-reset', [(A+'multilooking.py', "        self.n_beams_multilooking = 0\n\n        n_samples_max", "        n_samples_max")])
s('C16-x-pri', [(A+'sigma_zero_scaling.py', "                burst.pri_sar_pre_dat\n", "                self.chd.pri_sar\n")])
s('C16-x-earth', [(A+'sigma_zero_scaling.py', "self.cst.earth_radius / (self.cst.earth_radius + range_sat_surf)", "self.cst.earth_radius / (self.cst.earth_radius + working_surface_location.alt_sat)")])
s('C16-x-closest', [(A+'sigma_zero_scaling.py', "working_surface_location.closest_burst.agc_ku)", "burst.agc_ku)")])
s('C17-x-cond', [('dedop/proc/sar/cal/cal2_algorithm.py', "wfm_fft / np.sqrt(correction)", "wfm_fft / np.sqrt(np.maximum(correction, 1e-3))")])
s('C17-x-power', [('dedop/proc/sar/cal/cal1_algorithm.py', "fixed_gain = burst.agc_ku - burst.sig0_cal_ku", "fixed_gain = burst.agc_ku - abs(burst.sig0_cal_ku)")])
s('C18-x-flat', [('dedop/proc/geo/ecef2lla.py', "    lon = mod(lon, 2.*pi)\n", "    lon = lon + 2.*pi if lon < 0 else lon\n")])
s('C18-x-pole', [('dedop/proc/geo/ecef2lla.py', "        if abs(x)<1 and abs(y)<1:\n            alt = abs(z) - b", "        if abs(x)<1 and abs(y)<1:\n            alt = z - b")])
s('C18-x-poleradius', [('dedop/proc/geo/ecef2lla.py', "        if abs(x)<1 and abs(y)<1:\n", "        if abs(x)<1e5 and abs(y)<1e5:\n")])
s('C18-x-degrees', [('dedop/proc/geo/lla2ecef.py', "        lat = radians(lat)\n        lon = radians(lon)\n", "        lat = radians(lat)\n        lon = radians(lon % 180)\n")])
s('C18-x-norm', [('dedop/proc/geo/normalize.py', "    while rads > cst.pi:\n", "    while rads >= cst.pi:\n")])
s('C19-x-iso', [('dedop/util/time.py', "dt.timedelta(seconds=utc_secs)", "dt.timedelta(seconds=int(utc_secs))")])
SEEDS = S
