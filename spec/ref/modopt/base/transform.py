import numpy as np

def cube2map(data_cube, layout):
    if data_cube.ndim != 3:
        raise ValueError('The input data must have 3 dimensions.')
    if data_cube.shape[0] != np.prod(layout):
        raise ValueError('The desired layout must match the number of input ' + 'data layers.')
    res = [np.hstack(data_cube[slice(layout[1] * elem, layout[1] * (elem + 1))]) for elem in range(layout[0])]
    return np.vstack(res)

def map2cube(data_map, layout):
    if np.any(np.array(data_map.shape) % np.array(layout)):
        raise ValueError('The desired layout must be a multiple of the number ' + 'pixels in the data map.')
    d_shape = np.array(data_map.shape) // np.array(layout)
    return np.array([data_map[slice(i_elem * d_shape[0], (i_elem + 1) * d_shape[0]), slice(j_elem * d_shape[1], (j_elem + 1) * d_shape[1])] for i_elem in range(layout[0]) for j_elem in range(layout[1])])

def map2matrix(data_map, layout):
    layout = np.array(layout)
    image_shape = (np.array(data_map.shape) // layout)[0]
    data_matrix = []
    for i_elem in range(np.prod(layout)):
        lower = (image_shape * (i_elem // layout[1]), image_shape * (i_elem % layout[1]))
        upper = (image_shape * (i_elem // layout[1] + 1), image_shape * (i_elem % layout[1] + 1))
        data_matrix.append(data_map[lower[0]:upper[0], lower[1]:upper[1]].reshape(image_shape ** 2))
    return np.array(data_matrix).T

def matrix2map(data_matrix, map_shape):
    map_shape = np.array(map_shape)
    image_shape = np.sqrt(data_matrix.shape[0]).astype(int)
    layout = np.array(map_shape // np.repeat(image_shape, 2), dtype='int')
    data_map = np.zeros(map_shape, dtype=data_matrix.dtype)
    temp = data_matrix.reshape(image_shape, image_shape, data_matrix.shape[1])
    for i_elem in range(data_matrix.shape[1]):
        lower = (image_shape * (i_elem // layout[1]), image_shape * (i_elem % layout[1]))
        upper = (image_shape * (i_elem // layout[1] + 1), image_shape * (i_elem % layout[1] + 1))
        data_map[lower[0]:upper[0], lower[1]:upper[1]] = temp[:, :, i_elem]
    return data_map

def cube2matrix(data_cube):
    return data_cube.reshape([data_cube.shape[0], np.prod(data_cube.shape[1:])]).T

def matrix2cube(data_matrix, im_shape):
    return data_matrix.T.reshape([data_matrix.shape[1], *list(im_shape)])
