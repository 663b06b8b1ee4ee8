__all__ = ['filter', 'noise', 'positivity', 'svd', 'validation', 'wavelet']
