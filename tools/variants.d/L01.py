F = "pkm-cli/src/pkm_cli/controllers/prj_controller.py"
P = "api/projects/pyproject_configuration.py"
SAVE1 = """            lock = prj.lock.update_lock(prj.attached_environment)
            prj.config.save()
            lock.save()
"""
SAVE2 = """            lock = self.prj.lock.update_lock(self.prj.attached_environment)
            self.prj.config.save()
            lock.save()
"""
REST = """            configured_dependencies.clear()
            configured_dependencies.extend(prev_deps)
            raise e
"""
VARIANTS = [
    ("helper", "quiet", [(F, SAVE2, "            self._save()\n"), (F, "    def publish(self,", """    def _save(self):
        lock = self.prj.lock.update_lock(self.prj.attached_environment)
        self.prj.config.save()
        lock.save()

    def publish(self,""")]),
    ("slice restore", "quiet", [(F, REST, "            configured_dependencies[:] = prev_deps\n            raise\n")]),
    ("list copy", "quiet", [(F, "        prev_deps = [*configured_dependencies]\n", "        prev_deps = list(configured_dependencies)\n")]),
    ("copy method", "quiet", [(F, "        prev_deps = [*configured_dependencies]\n", "        prev_deps = configured_dependencies.copy()\n")]),
    ("comprehension copy", "quiet", [(F, "        prev_deps = [*configured_dependencies]\n", "        prev_deps = [d for d in configured_dependencies]\n")]),
    ("base exception", "quiet", [(F, "        except Exception as e:\n            configured_dependencies.clear()", "        except BaseException as e:\n            configured_dependencies.clear()")]),
    ("success flag", "quiet", [(F, "        except Exception as e:\n" + REST, """        except Exception:
            self._restore(configured_dependencies, prev_deps)
            raise
"""), (F, "    def publish(self,", """    @staticmethod
    def _restore(deps, prev):
        deps.clear()
        deps.extend(prev)

    def publish(self,""")]),
    ("alias", "fire", [(F, "        prev_deps = [*configured_dependencies]\n", "        prev_deps = configured_dependencies\n")]),
    ("late copy", "fire", [(F, "        prev_deps = [*configured_dependencies]\n        configured_dependencies.clear()\n        configured_dependencies.extend(combined_deps(prev_deps))\n",
                            "        configured_dependencies.extend(dependencies)\n        prev_deps = [*configured_dependencies]\n")]),
    ("only some errors", "fire", [(F, "        except Exception as e:\n            configured_dependencies.clear()", "        except UnsupportedOperationException as e:\n            configured_dependencies.clear()")]),
    ("no clear", "fire", [(F, REST, "            configured_dependencies.extend(prev_deps)\n            raise e\n")]),
    ("filtered copy", "fire", [(F, "        prev_deps = [*configured_dependencies]\n", "        prev_deps = [d for d in configured_dependencies if d not in dependencies]\n")]),
    ("optional forgotten", "fire", [(F, "            prj_config.optional_dependencies = prev_optional_dependencies\n            raise e", "            raise e")]),
    ("save first", "fire", [(F, "            self.prj.install_project(optional_group, updates, store_modes)\n", "            self.prj.config.save()\n            self.prj.install_project(optional_group, updates, store_modes)\n")]),
    ("lock late", "fire", [(F, SAVE1, "            prj.config.save()\n            prj.lock.update_lock(prj.attached_environment).save()\n")]),
    ("save in finally", "fire", [(F, REST, REST + "        finally:\n            self.prj.config.save()\n")]),
    ("swallowed", "fire", [(F, "            self.prj.install_project(optional_group, updates, store_modes)\n", """            try:
                self.prj.install_project(optional_group, updates, store_modes)
            except IOError:
                Display.print("offline")
""")]),
    ("cached", "fire", [(P, "    @property\n    def all_dependencies", "    @cached_property\n    def all_dependencies")]),
    ("cached elsewhere", "fire", [(P, "    def package_descriptor(self)", "    @cached_property\n    def extras(self):\n        return list(self.optional_dependencies)\n\n    def package_descriptor(self)")]),
    ("property calls", "quiet", [(P, "    def package_descriptor(self)", "    @property\n    def extras(self):\n        return list(self.optional_dependencies)\n\n    def package_descriptor(self)")]),
]
