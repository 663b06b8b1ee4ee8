__all__ = ['cost_plot']
