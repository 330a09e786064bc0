#!/usr/bin/env python3
"""Edit a copy of the repository in ways which keep its behaviour, to see whether the checks stay quiet

    cp -a /repo /tmp/refac; tools/refactor.py /tmp/refac; MC_REPO=/tmp/refac MC_NO_EVIDENCE=1 ./check C01
"""
import pathlib
import sys

ROOT = pathlib.Path(sys.argv[1])


def sub(path, *pairs):
    p = ROOT / path
    raw = p.read_bytes()
    text = raw.decode().replace('\r\n', '\n')
    for a, b in pairs:
        assert text.count(a) == 1, (path, text.count(a), a)
        text = text.replace(a, b)
    p.write_bytes((text.replace('\n', '\r\n') if b'\r\n' in raw else text).encode())


sub('moirae/interface/hdf5.py',
("""        if not isinstance(self.hdf5_output, h5py.Group):
            root = self._file_handle = h5py.File(self.hdf5_output, mode='a', **self.file_options)
        else:
            root = self.hdf5_output
        try:
            self._group_handle = root.require_group(self.storage_key)
        except Exception as e:
            self.__exit__(type(e), e, e.__traceback__)  # Not called if entering fails
            raise
        self.position = 0""","""        if isinstance(self.hdf5_output, h5py.Group):
            root = self.hdf5_output
        else:
            root = h5py.File(name=self.hdf5_output, mode='a', **self.file_options)
            self._file_handle = root
        try:
            if self.storage_key in root:
                self._group_handle = root.require_group(self.storage_key)
            else:
                self._group_handle = root.create_group(self.storage_key)
        except BaseException as error:
            self.__exit__(type(error), error, error.__traceback__)  # Not called if entering fails
            raise
        self.position = 0"""),
("""        for where in ['per_timestep', 'per_cycle']:
            if where in self._group_handle:
                raise ValueError(f'File contains {self.storage_key}/{where} group. Overwriting not yet supported')
""","""        present = [w for w in ('per_cycle', 'per_timestep') if self._group_handle.get(w) is not None]
        if present:
            raise ValueError(f'File contains {self.storage_key}/{present[0]} group. Overwriting not yet supported')
"""),
("""        self._group_handle.attrs['write_settings'] = self.model_dump_json(exclude={'hdf5_output'})
        self._group_handle.attrs['state_names'] = estimator.state_names
        self._group_handle.attrs['output_names'] = estimator.output_names
        self._group_handle.attrs['estimator_name'] = estimator.__class__.__name__
        self._group_handle.attrs['distribution_type'] = estimator.state.__class__.__name__
        self._group_handle.attrs['cell_model'] = estimator.cell_model.__class__.__name__
        self._group_handle.attrs['initial_asoh'] = estimator.asoh.model_dump_json()
        self._group_handle.attrs['initial_transient_state'] = estimator.transients.model_dump_json()
""","""        asoh, transients = estimator.asoh, estimator.transients
        metadata = {
            'initial_asoh': asoh.model_dump_json(),
            'initial_transient_state': transients.model_dump_json(),
            'cell_model': type(estimator.cell_model).__name__,
            'distribution_type': type(estimator.state).__name__,
            'estimator_name': type(estimator).__name__,
            'output_names': list(estimator.output_names),
            'state_names': list(estimator.state_names),
            'write_settings': self.model_dump_json(exclude={'hdf5_output'}),
        }
        for key, value in metadata.items():
            self._group_handle.attrs[key] = value
"""),
("""            to_insert = {'time': np.array(0.)}
            to_insert.update(_convert_state_to_numpy_dict(state, what, 'state'))
            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))

            # Create""","""            to_insert = {
                **_convert_state_to_numpy_dict(output, what, 'output'),
                **_convert_state_to_numpy_dict(state, what, 'state'),
                'time': np.zeros(()),
            }

            # Create"""),
("""                if self.resizable:
                    starting_size = 128 if expected is None else expected
                    my_kwargs = {'shape': (starting_size, *value.shape), 'maxshape': (expected, *value.shape)}
                else:
                    my_kwargs = {'shape': (expected, *value.shape)}

                my_group.create_dataset(key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs, **self.dataset_options)
""","""                my_kwargs = dict(self.dataset_options)
                my_kwargs['shape'] = (expected if expected is not None else 128,) + value.shape
                if self.resizable:
                    my_kwargs['maxshape'] = (expected,) + value.shape
                my_group.create_dataset(name=key, dtype=value.dtype, fillvalue=np.nan, **my_kwargs)
"""),
("""        for ind, what, where in [(self.position, self.per_timestep, 'per_timestep'),
                                 (int(cycle), self.per_cycle, 'per_cycle')]:
            # Determine if we must write
            if what == "none":
                continue
            my_group = self._group_handle[where]

            # Only write the first state for each cycle
            if where == "per_cycle" and ind < my_group['time'].shape[0] and not np.isnan(my_group['time'][ind]):
                continue

            # Determine what to write. The time marks that a row holds data, so it must be last
            to_insert = _convert_state_to_numpy_dict(state, what, 'state')
            to_insert.update(_convert_state_to_numpy_dict(output, what, 'output'))
            to_insert['time'] = np.array(time)

            # Write it
            for key, value in to_insert.items():
                my_dataset: h5py.Dataset = my_group[key]

                # Expand by as many chunks as necessary
                if my_dataset.shape[0] <= ind:
                    num_chunks = 1 + (ind - my_dataset.shape[0]) // my_dataset.chunks[0]
                    my_dataset.resize(my_dataset.shape[0] + num_chunks * my_dataset.chunks[0], axis=0)

                my_ind = (ind,) + (slice(None),) * value.ndim
                my_dataset[my_ind] = value

        # Increment the step position
        self.position += 1
""","""        if self.per_timestep != 'none':
            self._write_row(self._group_handle['per_timestep'], self.position, self.per_timestep, time, state, output)

        # Only write the first state for each cycle
        if self.per_cycle != 'none':
            group, row = self._group_handle['per_cycle'], int(cycle)
            known_times = group['time'][:]
            if row >= len(known_times) or np.isnan(known_times[row]):
                self._write_row(group, row, self.per_cycle, time, state, output)

        # Increment the step position
        self.position = self.position + 1

    @staticmethod
    def _write_row(group: h5py.Group, ind: int, what: OutputType, time: float,
                   state: MultivariateRandomDistribution, output: MultivariateRandomDistribution):
        values = list(_convert_state_to_numpy_dict(output, what, 'output').items())
        values.extend(_convert_state_to_numpy_dict(state, what, 'state').items())
        values.append(('time', np.array(time)))  # Marks that a row holds data, so it must be last
        for key, value in values:
            dataset = group[key]
            size = dataset.shape[0]
            while size <= ind:
                size += dataset.chunks[0]
            if size != dataset.shape[0]:
                dataset.resize(size, axis=0)
            dataset[ind, ...] = value
"""),
("""        data_keys = list(data_group.keys())
        data_keys.remove('time')
""","""        data_keys = sorted(k for k in data_group if k != 'time')
"""),
("""        for i, time in enumerate(data_group['time']):
            if np.isnan(time):  # NaN marks rows without data, such as cycles which are not in the dataset
                continue
            # Unpack the dists
            state_values = _unpack(i, 'state_')
            state_dist = dist_type(**state_values)

            output_values = _unpack(i, 'output_')
            output_dist = dist_type(**output_values)
            yield time, state_dist, output_dist
""","""        times = data_group['time'][()]
        for i in np.flatnonzero(~np.isnan(times)):  # NaN marks rows without data, such as cycles not in the dataset
            output_dist = dist_type(**_unpack(i, 'output_'))
            state_dist = dist_type(**_unpack(i, 'state_'))
            yield times[i], state_dist, output_dist
"""),
)
sub('moirae/interface/__init__.py',
("""    use_temp = 'temperature' in row and isfinite(row['temperature'])
""","""    temperature = row['temperature'] if 'temperature' in row else float('nan')
    if not isfinite(temperature):
        temperature = default_temperature
"""),
("temperature=row['temperature'] if use_temp else default_temperature","temperature=temperature"),
("""        def _row_iter(d):
            for _, r in d.iterrows():
                yield r

        row_iter = _row_iter(dataset.raw_data.reset_index())""","""        row_iter = (r for _, r in dataset.raw_data.reset_index().iterrows())"""),
("""        state_mean = np.zeros((num_rows, estimator.num_state_dimensions))
        state_std = np.zeros((num_rows, estimator.num_state_dimensions))
        output_mean = np.zeros((num_rows, estimator.num_output_dimensions))
        output_std = np.zeros((num_rows, estimator.num_output_dimensions))
""","""        summary = []
"""),
("""    if isinstance(hdf5_output, (str, Path, h5py.Group)):
        h5_writer = HDF5Writer(hdf5_output=hdf5_output)
    elif hdf5_output is not None:
        h5_writer = hdf5_output
    else:
        h5_writer = nullcontext()
""","""    if hdf5_output is None:
        h5_writer = nullcontext()
    elif isinstance(hdf5_output, HDF5Writer):
        h5_writer = hdf5_output
    elif isinstance(hdf5_output, (str, Path, h5py.Group)):
        h5_writer = HDF5Writer(hdf5_output=hdf5_output)
    else:
        h5_writer = hdf5_output
"""),
("""                state_mean[i, :] = new_state.get_mean()
                state_std[i, :] = np.sqrt(np.diag(new_state.get_covariance()))
                output_mean[i, :] = new_outputs.get_mean()
                output_std[i, :] = np.sqrt(np.diag(new_outputs.get_covariance()))
""","""                summary.append(np.concatenate([
                    part for x in (new_state, new_outputs)
                    for part in (x.get_mean(), np.sqrt(np.diagonal(x.get_covariance())))
                ]))
"""),
("""        for i, row in tqdm(
                enumerate(row_iter), total=num_rows, disable=not pbar,
        ):""","""        for row in tqdm(row_iter, total=num_rows, disable=not pbar):"""),
("""            np.concatenate([state_mean, state_std, output_mean, output_std], axis=1),
""","""            np.stack(summary),
"""),
)
sub('moirae/extractors/ecm.py',
("""        w = 1. / np.clip(np.abs(cycle['current']), a_min=1e-6, a_max=None)
        w /= w.sum()
""","""        w = 1. / np.maximum(cycle['current'].abs().to_numpy(), 1e-6)
        w = w / np.sum(w)
"""),
("""        cycle['soc'] = cycle['cycle_capacity'] / self.capacity  # Ensure data are [0, 1)
""","""        cycle = cycle.assign(soc=cycle['cycle_capacity'] / self.capacity)  # Ensure data are [0, 1)
"""),
("""        spline = LSQUnivariateSpline(
            cycle['soc'].values, cycle['voltage'].values, w=w, t=t
        )
""","""        spline = LSQUnivariateSpline(x=cycle['soc'].to_numpy(), y=cycle['voltage'].to_numpy(), t=t, w=w)
"""),
("""        sampled_soc = data.tables['cycle_stats']['capacity_charge'].max() / self.capacity
        if sampled_soc < self.soc_requirement:
""","""        largest = np.nanmax(data.tables['cycle_stats']['capacity_charge'])
        sampled_soc = largest / self.capacity
        if not sampled_soc >= self.soc_requirement:
"""),
)
sub('moirae/simulator.py',
("""        self.asoh = asoh.model_copy(deep=True)
        self.transient = transient_state.model_copy(deep=True)
        self.previous_input = initial_input.model_copy(deep=True)
""","""        self.previous_input, self.transient, self.asoh = (
            x.model_copy(deep=True) for x in (initial_input, transient_state, asoh)
        )
"""),
("""        new_transient = self.model.update_transient_state(new_inputs=new_inputs,
                                                          transient_state=self.transient,
                                                          asoh=self.asoh,
                                                          previous_inputs=self.previous_input)

        # Update internal
        self.transient = new_transient
        self.previous_input = new_inputs.model_copy(deep=True)

        # Get new measurement
        new_measurement = self.model.calculate_terminal_voltage(new_inputs=self.previous_input,
                                                                transient_state=self.transient,
                                                                asoh=self.asoh)

        # Update measurement
        self.measurement = new_measurement.model_copy(deep=True)
""","""        current = new_inputs.model_copy(deep=True)
        new_transient = self.model.update_transient_state(self.previous_input, current, self.transient, self.asoh)
        new_measurement = self.model.calculate_terminal_voltage(current, new_transient, self.asoh)

        # Update internal
        self.previous_input = current
        self.transient = new_transient
        self.measurement = new_measurement.model_copy(deep=True)
"""),
("""        measurements = []

        for new_input in inputs:
            _, measure = self.step(new_inputs=new_input)
            measurements.append(measure)

        return measurements
""","""        return [self.step(x)[1] for x in inputs]
"""),
("""        batch_size = max(x.batch_size for x in self.input_history + self.transient_history + self.measurement_history)
""","""        batch_size = 1
        for history in (self.measurement_history, self.input_history, self.transient_history):
            batch_size = max([batch_size] + [x.batch_size for x in history])
"""),
("""                x.to_numpy() if x.batch_size == batch_size else np.repeat(x.to_numpy(), batch_size, axis=0)
""","""                np.broadcast_to(x.to_numpy(), (batch_size, len(x)))
"""),
("""        member = np.tile(np.arange(batch_size), len(self.input_history))  # Rows are ordered by time, then batch
        return pd.concat([
            pd.DataFrame({'batch': member}),
            _squish(self.input_history),
            _squish(self.transient_history),
            _squish(self.measurement_history)
        ], axis=1)
""","""        output = pd.concat([_squish(x) for x in (self.input_history, self.transient_history, self.measurement_history)],
                           axis=1)
        output.insert(0, 'batch', np.arange(len(output)) % batch_size)  # Rows are ordered by time, then batch
        return output
"""),
("""        for _, group in df.groupby('batch'):
            batch = CellDataset(raw_data=group.drop(columns=['batch']))
""","""        for member in range(df['batch'].max() + 1):
            group = df[df['batch'] == member]
            batch = CellDataset(raw_data=group.loc[:, [c for c in df.columns if c != 'batch']].copy())
"""),
)
sub('moirae/estimators/offline/loss.py',
("""        if self.asoh.num_updatable == 0:
            return self.state.to_numpy()[0, :]
        return np.concatenate([self.state.to_numpy(), self.asoh.get_parameters()], axis=1)[0, :]  # Get a 1D vector
""","""        x0 = list(self.state.to_numpy()[0])
        if self.asoh.num_updatable > 0:
            x0.extend(self.asoh.get_parameters()[0])
        return np.array(x0)
"""),
("""        true_y = np.zeros((len(raw_data), x.shape[0], num_outs))

        true_y[0, :] = initial_output.to_numpy()
        y = self.cell_model.calculate_terminal_voltage(initial_input, state_x, asoh_x)
        pred_y[0, :] = y.to_numpy()

        # Run the forward model
        for i, (_, row) in enumerate(self.observations.raw_data.iloc[1:].iterrows()):
            new_in, new_out = row_to_inputs(row)
            _, pred_out = sim.step(new_in)

            true_y[i + 1, :] = new_out.to_numpy()
            pred_y[i + 1, :] = pred_out.to_numpy()

        # Compute the mean-squared-error for each member of the batch
        squared_error = np.power(pred_y - true_y, 2)
        return np.mean(squared_error, axis=(0, 2))  # Average over steps and outputs
""","""        true_y = np.zeros((len(raw_data), 1, num_outs))

        true_y[0, 0, :] = initial_output.to_numpy()[0]
        pred_y[0] = sim.measurement.to_numpy()

        # Run the forward model
        for i in range(1, len(raw_data)):
            new_in, new_out = row_to_inputs(raw_data.iloc[i])
            true_y[i, 0, :] = new_out.to_numpy()[0]
            pred_y[i] = sim.step(new_in)[1].to_numpy()

        # Compute the mean-squared-error for each member of the batch
        error = pred_y - true_y
        return (error * error).mean(axis=0).mean(axis=-1)  # Average over steps and outputs
"""),
)
sub('moirae/estimators/offline/scipy.py',
("""        result = minimize(
            fun=lambda x: self.objective(x[None, :]).item() / max(abs(y0), 1e-12),
            x0=x0,
            **self.scipy_kwargs
        )
""","""        scale = max(abs(y0), 1e-12)

        def fun(x):
            return float(self.objective(np.reshape(x, (1, -1)))[0]) / scale

        result = minimize(fun, x0, **self.scipy_kwargs)
"""),
("from scipy.optimize","import numpy as np\nfrom scipy.optimize"),
("""        states = self.objective.state.make_copy(result.x[None, :num_states])
        asoh = self.objective.asoh.make_copy(result.x[None, num_states:])
        return states, asoh, result""","""        best = np.atleast_2d(result.x)
        asoh = self.objective.asoh.make_copy(best[:, num_states:])
        states = self.objective.state.make_copy(best[:, :num_states])
        return states, asoh, result"""),
)
sub('moirae/models/ecm/__init__.py',
("""            IR_drop = new""","""            IR_drop = new""") if False else ("""        # Get basic info
        delta_t""","""        # Get basic info
        constant = self.current_behavior == 'constant'
        delta_t"""),
("""            exp_factor = np.exp(-delta_t / tau)  # shape (batch_size, num_rc)
            iRC_kp1 = iRC_kp1 * exp_factor  # shape (batch_size, num_rc)
            start_current = current_kp1 if self.current_behavior == 'constant' else current_k  # shape (trans_batch, 1)
            iRC_kp1 = iRC_kp1 + ((1 - exp_factor) * (start_current - (current_slope * tau)))  # (batch_size, num_rc)
            iRC_kp1 = iRC_kp1 + (current_slope * delta_t)  # shape (batch_size, num_rc)
""","""            start_current = current_kp1 if constant else current_k  # shape (trans_batch, 1)
            exp_factor = np.exp(-(delta_t / tau))
            target = start_current - current_slope * tau
            iRC_kp1 = target + (transient_state.i_rc - target) * exp_factor + current_slope * delta_t
"""),
("""            tau = np.array(np.broadcast_arrays(
                *(RC.time_constant(soc=soc_k, temp=temp_k) for RC in asoh.rc_elements)
            ))""","""            taus = [RC.time_constant(soc=soc_k, temp=temp_k) for RC in asoh.rc_elements]
            tau = np.stack(np.broadcast_arrays(*taus))"""),
("""        direction = np.sign(current_k)  # shape (current_batch, 1)
        if self.current_behavior != 'constant':
            direction = np.where(direction == 0, np.sign(current_kp1), direction)
""","""        if constant:
            direction = np.sign(current_k)  # shape (current_batch, 1)
        else:
            direction = np.sign(np.where(current_k == 0, current_kp1, current_k))
"""),
("""        coul_eff = np.where(direction < 0, 1., asoh.ce)  # shape (trans_batch, 1)
""","""        discharging = direction < 0
        coul_eff = discharging * 1. + ~discharging * asoh.ce  # shape (trans_batch, 1)
"""),
("""        if np.any(flips):
""","""        if flips.any():
"""),
("""        hyst_kp1 = hyst_kp1.squeeze().reshape((-1, 1))
""","""        hyst_kp1 = hyst_kp1.ravel()[:, np.newaxis]
"""),
("""        IR_drop = new_inputs.current  # shape: (current_batch, 1)
        r0 = asoh.r0.get_value(soc=transient_state.soc, temp=new_inputs.temperature)  # (r0_batch, soc_batch, soc_dim=1)
        IR_drop = IR_drop * r0  # broadcasting from right to left gives (r0_batch, trans_batch, soc_dim=1)
        Vt = Vt + IR_drop  # broadcasting from right to left gives (asoh_batch, trans_batch, soc_dim=1)
""","""        soc, temp = transient_state.soc, new_inputs.temperature
        Vt = Vt + asoh.r0.get_value(soc, temp) * new_inputs.current
"""),
("""            rc_rs = np.array(np.broadcast_arrays(
                *(rc.r.get_value(soc=transient_state.soc,
                                 temp=new_inputs.temperature)
                  for rc in asoh.rc_elements)
            ))  # Shape: (num_rc, rc.r_batch, soc_batch, soc_dim=1)
            # Transpose to get shape of (rc.r_batch, num_rc, soc_batch, soc_dim=1)
            rc_rs = np.swapaxes(rc_rs, axis1=0, axis2=1)
            # Get currents through resistors in RC
            i_rc = transient_state.i_rc  # shape (i_rc_batch, num_rc)
            # For proper broadcasting, let's turn this into a shape of (num_rc, i_rc_batch, 1)
            i_rc = i_rc.T[:, :, None]
            V_drops = i_rc * rc_rs  # shape (rc.r_batch, num_rc, trans_batch, soc_dim=1)
            V_drop_sum = np.sum(V_drops, axis=1)  # shape (rc.r_batch, trans_batch, soc_dim=1)
            Vt = Vt + V_drop_sum  # shape (asoh_batch_size, trans_batch_size, 1)
""","""            total = 0.
            for ind, rc in enumerate(asoh.rc_elements):
                total = total + transient_state.i_rc[:, ind:ind + 1] * rc.r.get_value(soc, temp)
            Vt = Vt + total
"""),
)
sub('moirae/models/ecm/components.py',
("""        new_value = reference_value * np.exp(- gamma * deltaT)
        return new_value
""","""        return np.exp(deltaT * -gamma) * reference_value
"""),
("""        ocv = self.ocv_ref.get_value(soc=soc)
        if temp is not None:
            T_ref = self.ocv_ref.reference_temperature
            delta_T = temp - T_ref
            ocv = ocv + delta_T * self.ocv_ent.get_value(soc=soc)
        return ocv
""","""        reference = self.ocv_ref.get_value(soc=soc)
        if temp is None:
            return reference
        entropic = self.ocv_ent.get_value(soc=soc)
        return (temp - self.ocv_ref.reference_temperature) * entropic + reference
"""),
("""        r, c = self.get_value(soc=soc, temp=temp)
        return r * c
""","""        return np.prod(np.broadcast_arrays(*self.get_value(soc=soc, temp=temp)), axis=0)
"""),
)
sub('moirae/models/ecm/utils.py',
("""            y = self.base_values[:, 0].copy()[:, None]  # shape = (internal_batch_size, 1)
            y = np.tile(y, (soc_batch_size, 1, soc_dim))  # shape = (soc_batch, internal_batch, soc_dim)
            y = np.swapaxes(y, 0, 1)  # shape = (internal_batch, soc_batch, soc_dim)
""","""            y = np.repeat(self.base_values[:, 0], soc_batch_size * soc_dim).reshape((internal_batch_size, soc_batch_size, soc_dim))
"""),
("""            self.soc_pinpoints = np.linspace(0, 1, self.base_values.shape[-1])
        func""","""            count = self.base_values.shape[-1]
            self.soc_pinpoints = np.arange(count) / (count - 1)
        func"""),
("""    h_dt = exp_factor * h0
    h_dt = h_dt + ((1 - exp_factor) * M)
    return h_dt""","""    return M + exp_factor * (h0 - M)"""),
)
sub('moirae/estimators/online/filters/kalman/utils.py',
("""    _, S_diagonal, V_complex_conjugate = np.linalg.svd(Sig)
    H_matrix = np.matmul(V_complex_conjugate.T, np.matmul(np.diag(S_diagonal), V_complex_conjugate))
    nearest = (Sig + Sig.T + H_matrix + H_matrix.T) / 4
""","""    eigenvalues, vectors = np.linalg.eigh(Sig)
    S_diagonal = np.abs(eigenvalues)
    nearest = (vectors * np.maximum(eigenvalues, 0)) @ vectors.T
    nearest = (nearest + nearest.T) / 2
"""),
("""    return np.matmul(cov_xy, np.linalg.inv(cov_y))""","""    return np.linalg.solve(cov_y.T, cov_xy.T).T"""),
("""    if np.allclose(Sig, Sig.T):  # checking if it is symmetric
        try:
            # checking for positive semi-definiteness
            np.linalg.cholesky(Sig)  # throws LinAlgError if not
            return Sig.copy()
        except np.linalg.LinAlgError:
            return enforce_positive_semi_defiteness(Sig).copy()
    else:
        return enforce_positive_semi_defiteness(Sig).copy()
""","""    if not np.allclose(Sig, Sig.T):
        return enforce_positive_semi_defiteness(Sig)
    try:
        np.linalg.cholesky(Sig)  # throws LinAlgError if not positive semi-definite
    except np.linalg.LinAlgError:
        return enforce_positive_semi_defiteness(Sig)
    return Sig.copy()
"""),
)
sub('moirae/estimators/online/filters/kalman/unscented.py',
("""        x_aug = np.hstack((self.hidden.get_mean(),
                           np.zeros(self.model.num_hidden_dimensions + self.model.num_output_dimensions)))
""","""        x_aug = np.zeros(self._aug_len)
        x_aug[:self.model.num_hidden_dimensions] = self.hidden.get_mean()
"""),
("""        cov_aug = block_diag(self.hidden.get_covariance(), self.cov_w, self.cov_v)
""","""        cov_aug = np.zeros((self._aug_len, self._aug_len))
        pos = 0
        for block in (self.hidden.covariance, self.cov_w, self.cov_v):
            cov_aug[pos:pos + len(block), pos:pos + len(block)] = block
            pos += len(block)
"""),
("from scipy.linalg import block_diag\n",""),
("""        aux_sigma_pts = np.vstack((np.zeros((self._aug_len,)),
                                   self.gamma_param * sqrt_cov_aug,
                                   -self.gamma_param * sqrt_cov_aug))
        sigma_pts = x_aug + aux_sigma_pts
        return sigma_pts
""","""        offsets = self.gamma_param * sqrt_cov_aug
        return np.concatenate([x_aug[None, :], x_aug + offsets, x_aug - offsets])
"""),
("""        x_hid = sigma_pts[:, :dim].copy()
        w_hid = sigma_pts[:, dim:(2 * dim)].copy()
        v_hid = sigma_pts[:, (2 * dim):].copy()
        return x_hid, w_hid, v_hid
""","""        return tuple(x.copy() for x in np.split(sigma_pts, [dim, 2 * dim], axis=1))
"""),
("""        u_old = self.controls.model_copy(deep=True)

        # Update hidden states
        x_update = self.model.update_hidden_states(hidden_states=hidden_states,
                                                   previous_controls=u_old.get_mean(),
                                                   new_controls=new_controls.get_mean(),
                                                   **kwargs)
        return x_update
""","""        previous, new = self.controls.get_mean(), new_controls.get_mean()
        return self.model.update_hidden_states(hidden_states, previous_controls=previous, new_controls=new, **kwargs)
"""),
("""        cov_x_k_plus = x_k_minus.get_covariance() - np.matmul(l_k, np.matmul(y_hat.get_covariance(), l_k.T))
""","""        cov_x_k_plus = x_k_minus.get_covariance() - (l_k @ y_hat.get_covariance()) @ l_k.T
"""),
)
sub('moirae/estimators/online/filters/distributions.py',
("""        combined_mean = [self.get_mean(),]
        combined_mean += [delta.get_mean() for delta in random_dists]
        combined_mean = np.concatenate(combined_mean, axis=None)
        return DeltaDistribution(mean=combined_mean)
""","""        return DeltaDistribution(mean=np.hstack([self.get_mean()] + [x.get_mean() for x in random_dists]))
"""),
("""        random_dists = list(random_dists)  # Iterated over twice
        combined_mean = [self.get_mean(),]
        combined_mean += [gaussian.get_mean() for gaussian in random_dists]
        combined_cov = [self.get_covariance(),]
        combined_cov += [gaussian.get_covariance() for gaussian in random_dists]
        combined_mean = np.concatenate(combined_mean, axis=None)
        combined_cov = block_diag(*combined_cov)
        return MultivariateGaussian(mean=combined_mean, covariance=combined_cov)
""","""        means, covariances = zip(*((x.get_mean(), x.get_covariance()) for x in [self, *random_dists]))
        return MultivariateGaussian(covariance=block_diag(*covariances), mean=np.concatenate(means))
"""),
)
sub('moirae/models/base.py',
("""            my_batch = param.shape[0]
            if batch_size > 1 and my_batch != 1 and my_batch != batch_size:
                raise ValueError(f'Inconsistent batch sizes. {name} has batch dim of {my_batch},'
                                 f' whereas {batch_param_name} has a size of {batch_size}')
            batch_size = max(batch_size, my_batch)
            if my_batch == batch_size:
                batch_param_name = name
        return batch_size

    @property
    def num_updatable(self):
        \"\"\"Number of updatable parameters in this HealthVariable\"\"\"
        return sum(x.shape[-1] for _, x in self.iter_parameters())
""","""            my_batch = len(param)
            if my_batch == 1:
                continue
            if batch_size not in (1, my_batch):
                raise ValueError(f'Inconsistent batch sizes. {name} has batch dim of {my_batch},'
                                 f' whereas {batch_param_name} has a size of {batch_size}')
            batch_size, batch_param_name = my_batch, name
        return batch_size

    @property
    def num_updatable(self):
        \"\"\"Number of updatable parameters in this HealthVariable\"\"\"
        total = 0
        for _, value in self.iter_parameters(updatable_only=True):
            total += value.shape[-1]
        return total
""") if False else ("""        return sum(x.shape[-1] for _, x in self.iter_parameters())
""","""        total = 0
        for _, value in self.iter_parameters(updatable_only=True):
            total += value.shape[-1]
        return total
"""),
("""        for model in models:
            for key in model.model_fields.keys():
                # Add the field as updatable
                field = getattr(model, key)
                if isinstance(field, _allowed_field_types):
                    model.updatable.add(key)
""","""        for model in list(models):
            model.updatable.update(k for k in type(model).model_fields if isinstance(getattr(model, k), _allowed_field_types))
"""),
("""        for model in models:
            model.updatable.clear()
""","""        for model in list(models):
            for key in list(model.updatable):
                model.updatable.discard(key)
"""),
("""        for n, m in zip(*self._get_model_chain(name)):
            m.updatable.add(n)
""","""        names, models = self._get_model_chain(name)
        for i in reversed(range(len(names))):
            models[i].updatable |= {names[i]}
"""),
("""        output = []
        for name in names:
            my_names, my_models = self._get_model_chain(name)
            value: np.ndarray = getattr(my_models[-1], my_names[-1])

            # Expand the array along batch and parameter dimension if needed
            if is_batched and value.shape[0] == 1:
                value = np.repeat(value, batch_size, axis=0)
            output.append(value)
        return np.concatenate(output, axis=1)  # Combine along the non-batched dimension
""","""        def _get(name: str) -> np.ndarray:
            my_names, my_models = self._get_model_chain(name)
            value = getattr(my_models[-1], my_names[-1])
            return np.tile(value, (batch_size, 1)) if is_batched and len(value) == 1 else value

        return np.hstack([_get(name) for name in names])  # Combine along the non-batched dimension
"""),
("""            new_value = values[:, pos:end]
            setattr(model, attr, new_value)
""","""            setattr(model, attr, values[:, slice(pos, end)].copy())
"""),
("""        relevant_vals = []
        batch_size = self.batch_size
        for field_name in self.all_fields:
            field: Optional[np.ndarray] = getattr(self, field_name, None)
            if field is None:
                continue

            # Expand the batch dimension if needed
            if batch_size > 1 and field.shape[0] == 1:
                field = np.repeat(field, batch_size, 0)
            relevant_vals.append(field)
        return np.concatenate(relevant_vals, axis=1)
""","""        fields = [x for x in (getattr(self, name, None) for name in self.all_fields) if x is not None]
        rows = self.batch_size
        output = np.empty((rows, sum(x.shape[1] for x in fields)), dtype=np.result_type(*fields))
        pos = 0
        for x in fields:
            output[:, pos:pos + x.shape[1]] = x
            pos += x.shape[1]
        return output
"""),
("""            begin_index = end_index
""","""            begin_index += field_len
"""),
)
sub('moirae/models/thevenin/__init__.py',
("""            params['ocv'] = partial(asoh.ocv, batch_id=b)
            params['R0'] = partial(asoh.r[0], batch_id=b)

            # Append the RC elements
            for r in range(params['num_RC_pairs']):
                params[f'R{r + 1}'] = partial(asoh.r[r + 1], batch_id=b)
                params[f'C{r + 1}'] = partial(asoh.c[r], batch_id=b)

            # Make the model
            model = Model(params=params)
""","""            elements = {'ocv': asoh.ocv}
            elements.update((f'R{i}', x) for i, x in enumerate(asoh.r[:params['num_RC_pairs'] + 1]))
            elements.update((f'C{i + 1}', x) for i, x in enumerate(asoh.c[:params['num_RC_pairs']]))
            for key, element in elements.items():
                params[key] = (lambda *args, f=element, i=b: f(*args, batch_id=i))

            # Make the model
            model = Model(params)
"""),
("from functools import partial\n",""),
("""            exp.add_step('current_A',
                         -new_inputs.current[model_i % new_inputs.current.shape[0]],  # Sign convention is opposite
                         (cur_time - pre_time, 2))
""","""            current = float(new_inputs.current[model_i % len(new_inputs.current), 0])
            exp.add_step(mode='current_A', value=-current, tspan=(cur_time - pre_time, 2))  # Sign convention is opposite
"""),
("""            for rc_i in range(asoh.num_rc_elements):
                output_array[model_i, 2 + rc_i] = sln.vars[f'eta{rc_i + 1}_V'][-1]
""","""            output_array[model_i, 2:] = [sln.vars[f'eta{i}_V'][-1] for i in range(1, asoh.num_rc_elements + 1)]
"""),
)
sub('moirae/estimators/online/dual.py',
("""        return transient_converted.combine_with((asoh_converted,))

    def set_""","""        return transient_converted.combine_with([asoh_converted])

    def set_"""),
("""        # Give these to the wrappers
        self.cell_wrapper.asoh = previous_asoh_posterior.model_copy(deep=True)
        self.asoh_wrapper.transients = previous_trans_posterior.model_copy(deep=True)

        # Now, we can safely step each filter on its own
        transient_estimate, output_pred_trans = self.trans_filter.step(
            new_controls=refactored_inputs.convert(
                conversion_operator=self.cell_wrapper.control_conversion, inverse=True),  # Convert to filter coordinate
            measurements=refactored_measurements.convert(
                conversion_operator=self.cell_wrapper.output_conversion, inverse=True))  # Convert to filter coordinates
        asoh_estimate, output_pred_asoh = self.asoh_filter.step(
            new_controls=refactored_inputs.convert(
                conversion_operator=self.asoh_wrapper.control_conversion, inverse=True),  # Convert to filter coordinate
            measurements=refactored_measurements.convert(
                conversion_operator=self.asoh_wrapper.output_conversion, inverse=True))  # Convert to filter coordinates

        # Convert estimates back to model-coordinates
        transient_estimate = transient_estimate.convert(conversion_operator=self.cell_wrapper.hidden_conversion)
        asoh_estimate = asoh_estimate.convert(conversion_operator=self.asoh_wrapper.hidden_conversion)
        output_pred_trans = output_pred_trans.convert(conversion_operator=self.cell_wrapper.output_conversion)
        output_pred_asoh = output_pred_asoh.convert(conversion_operator=self.asoh_wrapper.output_conversion)
""","""        # Give these to the wrappers
        self.cell_wrapper.asoh = previous_asoh_posterior
        self.asoh_wrapper.transients = previous_trans_posterior

        def _step(filt, wrapper):
            controls = refactored_inputs.convert(wrapper.control_conversion, inverse=True)
            outputs = refactored_measurements.convert(wrapper.output_conversion, inverse=True)
            estimate, predicted = filt.step(new_controls=controls, measurements=outputs)
            return estimate.convert(wrapper.hidden_conversion), predicted.convert(wrapper.output_conversion)

        # Now, we can safely step each filter on its own
        asoh_estimate, output_pred_asoh = _step(self.asoh_filter, self.asoh_wrapper)
        transient_estimate, output_pred_trans = _step(self.trans_filter, self.cell_wrapper)
"""),
)
sub('moirae/estimators/online/joint.py',
("""            asoh_values = initial_asoh.get_parameters()
            # Check parameters that are 0 and leave them un-normalized
            asoh_values = np.where(asoh_values == 0, 1., asoh_values)
            # Now, get dimension of transients
            num_transients = initial_transients.to_numpy().shape[1]
            normalizer_vector = np.hstack((np.ones(num_transients), asoh_values.flatten()))
""","""            asoh_values = initial_asoh.get_parameters().ravel().astype(float)
            asoh_values[asoh_values == 0] = 1.  # Leave parameters that are 0 un-normalized
            normalizer_vector = np.pad(asoh_values, (len(initial_transients), 0), constant_values=1.)
"""),
("""        transient_array = joint_wrapper.transients.to_numpy().flatten()
        asoh_array = joint_wrapper.asoh.get_parameters(names=joint_wrapper.asoh_inputs).flatten()
        joint_mean = np.hstack((transient_array, asoh_array)).flatten()
""","""        joint_mean = np.concatenate((joint_wrapper.transients.to_numpy()[0],
                                     joint_wrapper.asoh.get_parameters(names=joint_wrapper.asoh_inputs)[0]))
"""),
)
sub('moirae/estimators/online/filters/conversions.py',
("""        transformed_samples = np.matmul(samples, self.multiplicative_array) + self.additive_array
        return transformed_samples
""","""        return self.additive_array + samples @ self.multiplicative_array
"""),
("""        transformed_covariance = np.matmul(np.matmul(self.multiplicative_array.T, covariance),
                                           self.multiplicative_array)
        return transformed_covariance
""","""        return self.multiplicative_array.T @ (covariance @ self.multiplicative_array)
"""),
("""            transformed_samples = np.abs(samples)
        else:
            transformed_samples = samples.copy()
            if samples.ndim == 1:
                transformed_samples[self.indices] = np.abs(samples[self.indices])
            else:
                transformed_samples[:, self.indices] = np.abs(samples[:, self.indices])
        return transformed_samples
""","""            return np.abs(samples)
        transformed_samples = np.array(samples)
        transformed_samples[..., self.indices] = np.abs(transformed_samples[..., self.indices])
        return transformed_samples
"""),
)
sub('moirae/estimators/online/utils/model.py',
("""        joint_raw = np.concatenate([trans_raw, asoh_raw], axis=1)
""","""        joint_raw = np.hstack((trans_raw, asoh_raw))
"""),
)
