__all__ = ['cost', 'gradient', 'linear', 'algorithms', 'proximity', 'reweight']
