"""Reference definitions for taupy/TauP_Create.py."""
import os
import inspect
import argparse


# TauP_Create.__init__
def TauP_Create___init__(self, input_filename, output_filename, verbose=False, min_delta_p=0.1, max_delta_p=11.0, max_depth_interval=115.0, max_range_interval=2.5, max_interp_error=0.05, allow_inner_core_s=True):
    self.input_filename = input_filename
    self.output_filename = output_filename
    self.debug = verbose
    self.min_delta_p = min_delta_p
    self.max_delta_p = max_delta_p
    self.max_depth_interval = max_depth_interval
    self.max_range_interval = max_range_interval
    self.max_interp_error = max_interp_error
    self.allow_inner_core_s = allow_inner_core_s


# TauP_Create.loadVMod
def TauP_Create_loadVMod(self):
    filename = self.input_filename
    if self.debug:
        pass
    self.vMod = VelocityModel.readVelocityFile(filename)
    if self.vMod is None:
        pass
    if self.vMod is None:
        raise IOError('Velocity model file not found: ' + filename)
    if self.debug:
        pass
    return self.vMod


# TauP_Create.createTauModel
def TauP_Create_createTauModel(self, vMod):
    if vMod is None:
        raise ValueError('vMod is None.')
    if vMod.isSpherical is False:
        raise Exception('Flat slowness model not yet implemented.')
    SlownessModel.DEBUG = self.debug
    if self.debug:
        pass
    from math import pi
    self.sMod = SlownessModel(vMod, self.min_delta_p, self.max_delta_p, self.max_depth_interval, self.max_range_interval * pi / 180.0, self.max_interp_error, self.allow_inner_core_s, SlownessModel.DEFAULT_SLOWNESS_TOLERANCE)
    if self.debug:
        pass
    TauModel.DEBUG = self.debug
    SlownessModel.DEBUG = self.debug
    return TauModel(self.sMod)


# TauP_Create.run
def TauP_Create_run(self):
    try:
        self.tMod = self.createTauModel(self.vMod)
        if self.debug:
            pass
        output_dir = os.path.dirname(self.output_filename)
        if output_dir and (not os.path.exists(output_dir)):
            os.makedirs(output_dir)
        self.tMod.writeModel(self.output_filename)
        if self.debug:
            pass
    except IOError as e:
        pass
    except KeyError as e:
        pass
    finally:
        if self.debug:
            pass


# TauP_Create.main
def TauP_Create_main(cls, model_file_name, output_dir, input_dir, verbose=False):
    model_name = os.path.splitext(os.path.basename(model_file_name))[0]
    create = cls(os.path.join(input_dir, model_file_name), os.path.join(output_dir, model_name + '.taup'), verbose)
    create.loadVMod()
    create.run()
