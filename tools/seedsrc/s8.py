W = 'dedop/ui/workspace_manager.py'
N = 'dedop/data/output/netcdf_writer.py'
LB = 'dedop/data/output/l1b_writer.py'
LS = 'dedop/data/output/l1bs_writer.py'
M = 'dedop/util/monitor.py'
AP = 'dedop/conf/auxiliary_parameter.py'
AR = 'dedop/conf/auxiliary_file_reader.py'
CF = 'dedop/conf/configuration.py'
U = 'dedop/util/config.py'
S = []
def s(id, *edits, needs='x', breaks='y', demo=None):
    d = dict(id=id, property=id[:3], edits=list(edits), needs=needs, breaks=breaks)
    if demo: d['demo'] = demo
    S.append(d)
s('C20-x-none', (N, "            if value is None:\n                continue\n", "            if value is None:\n                value = 0\n"))
s('C20-x-index', (N, "                    var[self.output_index, :len(value)] = value[:]", "                    var[self.output_index, :var.shape[1]] = value[:var.shape[1]]"))
s('C20-x-fall', (N, "        if value is None:\n            value = 'Not available'\n", "        if not value:\n            value = 'Not available'\n"))
s('C20-x-range', (LS, "range_ku_l1bs_echo_sar_ku=surface_location_data.win_delay_surf * self.cst.c / 2.", "range_ku_l1bs_echo_sar_ku=surface_location_data.alt_sat - surface_location_data.alt_surf"))
s('C20-x-scalefactor', (LS, "        scale_factor = pow(10, -closest_burst.agc_ku / 10)\n", "        scale_factor = pow(10, -surface_location_data.stack_bursts[0].agc_ku / 10)\n"))
s('C20-x-dynamic', (LS, "max_iq = max(np.max(np.abs(stack_i)), np.max(np.abs(stack_q)))", "max_iq = np.max(np.abs(surface_location_data.beams_range_compr_iq))"))
s('C20-x-fill', (N, "            if fill_value is not None:\n", "            if fill_value:\n"))
s('C20-x-attr', (N, "        data = self._variables[variable_name]\n", "        data = dict(self._variables[variable_name])\n        data.pop('scale_factor', None) if data.get('scale_factor') == 1. else None\n"))
s('C20-x-outindex', (N, "        self.create_all_variables()\n\n        self.output_index = 0\n", "        self.create_all_variables()\n"))
s('C21-x-version', (AR, "            if version != cls._fileversion:", "            if version < cls._fileversion:"))
s('C21-x-meta', (AR, '            return -1\n', '            return cls_version(data)\n\n\n'.replace('cls_version(data)', '0')))
s('C21-x-cache', (AP, "            return self._cache[instance]\n", "            return self._cache[instance]\n        if None in self._cache:\n            return None\n"))
s('C21-x-bool', (AP, "            value = self.cast(value)\n", "            value = self.cast(value or 0)\n"))
s('C21-x-reshape', (AP, "                value = np.reshape(value, self.shape)", "                value = np.resize(value, self.shape)"))
s('C21-x-unknown', (AR, "                data[name] = param['value']\n", "                data.setdefault(name.lower() if name not in cls._get_parameters() else name, param['value'])\n"))
s('C21-x-missing', (AR, "        if item in self._get_parameters() and item in self._data:", "        if item in self._data:"))
s('C21-x-params', (AR, "item.name for name, item in vars(cls).items() if\\\n                isinstance(item, AuxiliaryParameter)", "item.name for name, item in vars(cls).items() if\\\n                type(item) is AuxiliaryParameter"))
s('C21-x-focus', (CF, 'AuxiliaryParameter("surface_focusing_lon_cnf", cast_type=radians)', 'AuxiliaryParameter("surface_focusing_lon_cnf")'))
s('C22-x-none', ('dedop/proc/sar/base_algorithm.py', "                setattr(self, param.name, getattr(self.cnf, param.name))", "                setattr(self, param.name, getattr(self.cnf, param.name, param.default_value))"))
s('C22-x-shared', ('dedop/util/parameter.py', "        if 'parameters' not in annotated_class.__dict__:\n", "        if not hasattr(annotated_class, 'parameters'):\n"))
s('C22-x-order', ('dedop/util/parameter.py', "for base in reversed(clazz.__mro__):", "for base in clazz.__mro__:"))
s('C23-x-ge', (W, "            if change['version'] <= current_version:", "            if change['version'] < current_version:"))
s('C23-x-keep', (W, "            current_config[key] = default_config[key]\n", "            current_config.setdefault(key, default_config[key])\n"))
s('C23-x-meta', (W, "        current_config['__metainf__'] = default_config['__metainf__']\n", "        current_config.setdefault('__metainf__', {}).update(default_config['__metainf__'])\n"))
s('C23-x-sort', (W, "            for parameter in change['parameters']:", "            for parameter in sorted(change['parameters']):"))
s('C23-x-readd', (W, "                    removed_list.remove(parameter_key) if parameter_key in removed_list else None\n", ""))
s('C24-x-exists', (W, "        if os.path.isdir(workspace_dir) and os.listdir(workspace_dir):\n", "        if os.path.isdir(workspace_dir) and len(os.listdir(workspace_dir)) > 1:\n"))
s('C24-x-delconf', (W, "        dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)\n        if os.path.exists(dir_path):\n            try:\n                shutil.rmtree(dir_path)", "        dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)\n        if os.path.exists(dir_path):\n            try:\n                if len(self.get_config_names(workspace_name)) == 1:\n                    dir_path = os.path.dirname(dir_path)\n                shutil.rmtree(dir_path)"))
s('C24-x-inputsbase', (W, "os.path.join(inputs_dir, os.path.basename(input_path))", "os.path.join(inputs_dir, os.path.basename(input_path).strip())"))
s('C24-x-setcur', (W, "        _writeline(self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, _CURRENT_FILE_NAME), config_name)", "        _writeline(self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, _CURRENT_FILE_NAME), config_name.lower())"))
s('C24-x-trunc', (W, "            f.write(configuration)\n            f.truncate()\n", "            f.write(configuration)\n"))
s('C25-x-dirs', (W, "fn.endswith('.nc') and os.path.isfile(os.path.join(directory, fn))]", "fn.endswith('.nc')]"))
s('C25-x-pattern', (W, "                    if fnmatch.fnmatch(fn, p):\n", "                    if fnmatch.fnmatch(fn, p + '*'):\n"))
s('C25-x-emptylist', (W, "        elif pattern:\n", "        elif pattern is not None:\n"))
s('C25-x-dup', (W, "                        new_fn_list.append(fn)\n                        break\n", "                        new_fn_list.append(fn)\n"))
s('C25-x-wsfiles', (W, "            return sorted([name for name in os.listdir(workspaces_dir)\n                           if os.path.isdir(os.path.join(workspaces_dir, name))])", "            return sorted([name for name in os.listdir(workspaces_dir)\n                           if not name.startswith('.')])"))
s('C25-x-hidden', (W, "            return sorted([name for name in os.listdir(configs_dir) if os.path.isdir(os.path.join(configs_dir, name))])", "            return sorted([name for name in os.listdir(configs_dir) if os.path.isdir(os.path.join(configs_dir, name)) and not name.startswith('.')])"))
s('C25-x-nbindex', (W, "        index = 0\n        while True:\n", "        index = len([n for n in os.listdir(notebook_dir) if n.startswith(notebook_basename)])\n        while True:\n"))
s('C26-x-zero', (M, "if work is not None else None\n        parent_msg", "if work else None\n        parent_msg"))
s('C26-x-done', (M, "        self._worked = 0.\n", "        self._worked = self._worked or 0.\n"))
s('C26-x-cancelstart', (M, "        self._old_ctrl_c_handler = signal", "        self._cancelled = False\n        self._old_ctrl_c_handler = signal"))
s('C26-x-exc', (M, "        try:\n            yield self\n        finally:\n            self.done()", "        yield self\n        self.done()"))
s('C26-x-childdone', (M, "    def done(self):\n        parent_work = 0.0 if self._total_work is not None else None\n", "    def done(self):\n        parent_work = self._partial_work if self._total_work is None else 0.0\n"))
s('C29-x-strip', (U, "    return get_config().get(name, default)\n", "    return get_config().get(name) or default\n"))
SEEDS = S
