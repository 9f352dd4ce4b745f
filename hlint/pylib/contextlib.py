"""Model of the standard library module (interpreted, never imported)."""


class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None


class ContextDecorator:
    def __call__(self, func):
        def inner(*args, **kwargs):
            with self:
                return func(*args, **kwargs)
        return inner


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc):
        self.thing.close()


class ExitStack:
    def __init__(self):
        self._todo = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        leave = __leave__(cm)
        v = cm.__enter__()
        self._todo.append(leave)
        return v

    def push(self, cm):
        self._todo.append(cm.__exit__ if hasattr(cm, "__exit__") else cm)
        return cm

    def callback(self, func, *args, **kwargs):
        def leave(*exc):
            func(*args, **kwargs)
            return False
        self._todo.append(leave)
        return func

    def pop_all(self):
        new = ExitStack()
        new._todo = self._todo
        self._todo = []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, *exc):
        swallowed = False
        now = exc
        pending = None
        while self._todo:
            leave = self._todo.pop()
            try:
                if leave(*now):
                    swallowed = True
                    pending = None
                    now = (None, None, None)
            except BaseException as e:
                now = (type(e), e, None)
                pending = e
        if pending is not None:
            raise pending
        return swallowed
