__all__ = ['convolve', 'matrix', 'stats', 'metrics']
