A = 'dedop/proc/sar/algorithms/'
GC, SL, AZ, BA = A + 'geometry_corrections.py', A + 'surface_locations.py', A + 'azimuth_processing.py', A + 'beam_angles.py'
SG, SM, ML, RC, SZ = A + 'stack_gathering.py', A + 'stack_masking.py', A + 'multilooking.py', A + 'range_compression.py', A + 'sigma_zero_scaling.py'
P = 'dedop/proc/sar/processor.py'
C1, C2 = 'dedop/proc/sar/cal/cal1_algorithm.py', 'dedop/proc/sar/cal/cal2_algorithm.py'
EL, LE = 'dedop/proc/geo/ecef2lla.py', 'dedop/proc/geo/lla2ecef.py'
S = []
def s(id, *edits, needs='x', breaks='y', demo=None):
    d = dict(id=id, property=id[:3], edits=list(edits), needs=needs, breaks=breaks)
    if demo: d['demo'] = demo
    S.append(d)
s('C12-y-keepdop', (GC, """        self.doppler_corrections = np.zeros(
            (self.n_looks_stack,), dtype=np.float64
        )
""", """        if getattr(self, 'doppler_corrections', None) is None:
            self.doppler_corrections = np.zeros(
                (self.n_looks_stack,), dtype=np.float64
            )
"""))
s('C04-y-bufreuse', (AZ, """        self.beams_focused = np.empty(
            packet.waveform_cor_sar.shape,
            dtype=np.complex128
        )
""", """        if self.beams_focused is None or self.beams_focused.shape != packet.waveform_cor_sar.shape:
            self.beams_focused = np.empty(
                packet.waveform_cor_sar.shape,
                dtype=np.complex128
            )
"""))
s('C15-y-lastcell', (ML, "            index_right = index_left + 1\n", "            index_right = min(index_left + 1, len(self.chd.antenna_weights) - 2)\n"))
s('C15-y-zero', (ML, "            if surface.stack_mask_vector[beam_index] != 0:\n", "            if surface.stack_mask_vector[beam_index] > 1:\n"))
s('C15-y-hamalpha', (ML, "            alpha = (angle - self.chd.antenna_angles[index_left]) / self.chd.antenna_angles_spacing\n", "            alpha = weight_index % 1 if weight_index > 1 else 0.\n"))
s('C09-y-single', (BA, "            elif prev_location_seen:\n                break\n", "            elif prev_location_seen and len(self.beam_angles) > 1:\n                break\n"))
s('C09-y-last', (P, "        last_index = 0\n", "        last_index = 0 if packet.beam_angles_trend >= 0 else surfaces[-1].surface_counter - surfaces[0].surface_counter + 1 - len(surfaces)\n"))
s('C08-y-third', (SL, "            if len(surfaces) > 1 and not", "            if len(surfaces) > 2 and not"))
s('C08-y-gap', (SL, "            if len(surfaces) > 1 and not", "            if len(surfaces) > 1 and not self.first_surf and not"))
s('C08-y-sat', (SL, "            (surface_to_move.alt_sat - surface_to_move.alt_surf) * 2. / self.cst.c\n        # TODO", "            (surface_to_move.alt_sat - surface_to_move.alt_surf) * 2. / self.cst.c\n        surface_to_move.compute_surf_sat_vector()\n        # TODO"))
s('C19-y-firstday', (SL, "        self.curr_day_length = self.cst.sec_in_day + \\\n            (isp_record.seconds >= self.cst.sec_in_day)\n", "        self.curr_day_length = max(self.curr_day_length, self.cst.sec_in_day) + \\\n            (isp_record.seconds >= self.cst.sec_in_day) * (self.curr_day_length <= self.cst.sec_in_day)\n"))
s('C14-y-trunc', (SM, "            shift_coarse = np.round(shift)\n", "            shift_coarse = np.round(shift) if abs(shift) < self.chd.n_samples_sar else np.fmod(np.round(shift), self.chd.n_samples_sar)\n"))
s('C14-y-int', (SM, "            if start < end:\n                geom_mask", "            if end:\n                geom_mask"))
s('C14-y-applyn', (SM, "                 stack_mask[:working_surface_location.data_stack_size, :]\n", "                 stack_mask[:working_surface_location.data_stack_size, :1] if working_surface_location.data_stack_size == 1 else working_surface_location.beams_range_compr * \\\n                 stack_mask[:working_surface_location.data_stack_size, :]\n"))
s('C10-y-sorttie', (SG, "                look_angles_all_indices[:self.n_looks_stack]\n", "                look_angles_all_indices[:self.n_looks_stack - 1]\n"))
s('C10-y-closest0', (SG, "            if closest_burst_beam_angle is None or\\\n", "            if not closest_burst_beam_angle or\\\n"))
s('C10-y-pitch', (SG, "            pointing_angle_beam = look_angle_beam - stack_burst.pitch_sar\n", "            pointing_angle_beam = look_angle_beam - working_surface_location.pitch_sat\n"))
s('C10-y-look', (SG, "            look_angle_beam = self.cst.pi / 2. + doppler_angle_beam - beam_angle\n\n            pointing", "            look_angle_beam = look_angles_all[stack_index] if stack_elements_to_remove else self.cst.pi / 2. + doppler_angle_beam - beam_angle\n\n            pointing"))
s('C16-y-mean', (SZ, "np.mean(self.sigma0_scaling_factor_beam)", "np.mean(self.sigma0_scaling_factor_beam[self.sigma0_scaling_factor_beam != 0])"))
s('C16-y-pulses', (SZ, "10 * log10(64) +", "10 * log10(self.chd.n_ku_pulses_burst) +"))
s('C17-y-abs', (C1, "np.sqrt(burst.cal1_power)", "np.sqrt(np.maximum(burst.cal1_power, 1e-3))"))
s('C17-y-inplace', (C2, "wfm_fft / np.sqrt(correction)", "wfm_fft / np.sqrt(np.where(correction > 1e-6, correction, 1.))"))
s('C13-y-even', (RC, "n=padded_size, norm=\"ortho\"\n", "n=padded_size, norm=\"ortho\" if self.zp_fact_range > 1 or padded_size % 2 == 0 else None\n"))
s('C18-y-mod', (EL, "    lon = mod(lon, 2.*pi)\n", "    lon = lon if lon >= 0. else lon + 2.*3.1415927\n"))
s('C18-y-pole', (EL, "        if abs(x)<1 and abs(y)<1:\n            alt = abs(z) - b\n", "        if abs(x)<1 or abs(y)<1:\n            alt = abs(z) - b\n"))
s('C05-y-thin', (P, "                if working_loc.data_stack_size < (self.cnf.n_looks_stack // 2):\n", "                if working_loc.data_stack_size < (self.cnf.n_looks_stack / 2):\n"))
s('C05-y-gapmin', (P, "            if surface_processing or len(self.surf_locs) >= self.min_surfs or gap_processing:\n", "            if surface_processing or len(self.surf_locs) >= self.min_surfs or (gap_processing and len(self.surf_locs) > 1):\n"))
s('C06-y-trend', (P, "        self.beam_angles_trend_prev = -1\n        self.surfaces_count = 0\n", "        self.surfaces_count = 0\n"))
s('C06-y-l1bs', (P, "        self.surface_locations_algorithm.focus_found = False\n", "        self.surface_locations_algorithm.focus_found = False or self.surface_locations_algorithm.first_surf\n"))
s('C04-y-resumecal', (P, "                    if not gap_resume:\n                        self.cal1_algorithm(input_packet)\n                        self.cal2_algorithm(input_packet)\n", "                    if not gap_resume:\n                        self.cal1_algorithm(input_packet)\n                    self.cal2_algorithm(input_packet)\n"))
s('C11-y-trend', (AZ, "            if beam_angles_list_size <= half_pulses:\n                nadir_beam_index = -1\n", "            if beam_angles_list_size < half_pulses:\n                nadir_beam_index = -1\n"))
s('C11-y-width', (AZ, "        start = centre - (width // 2)\n", "        start = (self.chd.n_ku_pulses_burst - width) // 2\n"))
s('C11-y-exactc', (AZ, "wfm_fft_azimuth[self.chd.n_ku_pulses_burst // 2, :]", "wfm_fft_azimuth[(self.chd.n_ku_pulses_burst - 1) // 2 + 1, :]"))
s('C09-y-abs', ('dedop/model/surface_data.py', "beam_angles_list_size - self.chd.n_ku_pulses_burst // 2\n", "beam_angles_list_size - (self.chd.n_ku_pulses_burst + 1) // 2\n"))

SEEDS = S
