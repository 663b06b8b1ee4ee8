__all__ = ['np_adjust', 'transform', 'types', 'observable']
