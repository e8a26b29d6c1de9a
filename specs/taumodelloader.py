"""Reference definitions for taupy/TauModelLoader.py."""
import os
import pickle


# load
def load(model_name):
    filename = _get_model_filename(model_name)
    if os.path.dirname(model_name) or not os.path.exists(filename):
        filename = model_name
    with open(filename, 'rb') as f:
        return pickle.load(f)
