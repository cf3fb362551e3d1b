def check_estimator(e):
    raise NotImplementedError
