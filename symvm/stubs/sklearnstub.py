"""Stubs of the sklearn helpers through which symbolic data flows."""


def check_X_y(X, y, *args, **kw):
    _ENV.seen_check("check_X_y")
    return _ENV.checked(X, kw), y


def check_array(X, *args, **kw):
    _ENV.seen_check("check_array")
    return _ENV.checked(X, kw)


def check_is_fitted(estimator, attributes=None, **kw):
    if not hasattr(estimator, "is_fitted_"):
        raise ValueError("This estimator is not fitted yet.")


def unique_labels(*ys):
    return _ENV.unique_labels(*ys)


class LabelEncoder:
    def fit(self, y):
        self.classes_ = _ENV.unique_labels(y)
        return self

    def fit_transform(self, y):
        self.classes_ = _ENV.unique_labels(y)
        return _ENV.encode_labels(self.classes_, y)

    def transform(self, y):
        return _ENV.encode_labels(self.classes_, y)

    def inverse_transform(self, y):
        return _ENV.decode_labels(self.classes_, y)
