"""Reference definitions for taupy/tau.py."""
import inspect
import os


# Arrivals.__init__
def Arrivals___init__(self, arrivals):
    super(Arrivals, self).__init__()
    self.extend(arrivals)


# TauPyModel.__init__
def TauPyModel___init__(self, model='iasp91', verbose=False):
    self.verbose = verbose
    self.model = load(model)


# TauPyModel.get_travel_times
def TauPyModel_get_travel_times(self, source_depth_in_km, distance_in_degree=None, phase_list=None, coordinate_list=None, print_output=False):
    phase_list = phase_list if phase_list is not None else ['ttall']
    tt = TauP_Time(self.model, phase_list, source_depth_in_km, distance_in_degree, coordinate_list)
    tt.run(print_output)
    if print_output:
        return
    return Arrivals(tt.arrivals)


# TauPyModel.get_pierce_points
def TauPyModel_get_pierce_points(self, source_depth_in_km, distance_in_degree=None, phase_list=None, coordinate_list=None, print_output=False):
    phase_list = phase_list if phase_list is not None else ['ttall']
    pp = TauP_Pierce(self.model, phase_list, source_depth_in_km, distance_in_degree, coordinate_list)
    pp.run(print_output)
    if print_output:
        return
    return Arrivals(pp.arrivals)


# TauPyModel.get_ray_paths
def TauPyModel_get_ray_paths(self, source_depth_in_km, distance_in_degree=None, phase_list=None, coordinate_list=None, print_output=False):
    phase_list = phase_list if phase_list is not None else ['ttall']
    rp = TauP_Path(self.model, phase_list, source_depth_in_km, distance_in_degree, coordinate_list)
    rp.run(print_output)
    if print_output:
        return
    return Arrivals(rp.arrivals)


# create_taup_model
def create_taup_model(model_name, output_dir, input_dir):
    if '.' in model_name:
        model_file_name = model_name
    else:
        model_file_name = model_name + '.tvel'
    TauP_Create.main(model_file_name, output_dir, input_dir)


# Arrivals.__str__
def Arrivals___str__(self):
    return str(len(self)) + ' arrivals\n\t' + '\n\t'.join([str(a) for a in self])


# Arrivals.__repr__
def Arrivals___repr__(self):
    return '[' + ', '.join([repr(a) for a in self]) + ']'
