import numpy as np


def get_dataset(ncfile, dataset=None):
    if dataset is not None:
        return dataset
    import netCDF4
    if isinstance(ncfile, netCDF4.Dataset):
        return ncfile
    if isinstance(ncfile, (list, tuple)) and len(ncfile) > 1:
        return netCDF4.MFDataset(ncfile)
    if isinstance(ncfile, (list, tuple)):
        ncfile = ncfile[0]
    return netCDF4.Dataset(ncfile)


def _reorganize_spatial_data(points):
    if points is None:
        return None
    points = np.asarray(points)
    if points.ndim == 1:
        return points.reshape(1, -1)
    if points.shape[1] in (2, 3):
        return points
    return points.T


def _align_results_to_spatial_data(result, points):
    points = np.asarray(points)
    if points.ndim == 1:
        return result[0] if result.shape[0] == 1 else result
    if points.shape[1] in (2, 3):
        return result
    return result.T


def convert_mask_to_numpy_mask(mask_var):
    return np.asarray(mask_var[:]).astype(bool)


def gen_celltree_mask_from_center_mask(center_mask, sl):
    return np.asarray(center_mask[sl]).astype(bool)
