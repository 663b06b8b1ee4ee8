__all__ = ['errors', 'log']
