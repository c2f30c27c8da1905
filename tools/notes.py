NA = {}
NOTES = {'default': 'Complete within the stated bounds (expression depth, sizes, groups, hash orders); every explored state is executed on the real '
                    'code and compared with an independent float64 reference model. Trusts the reference model, single-precision tolerance 2e-3 '
                    'and, for continuous groups, the reduction to generators.'}
TECH = dict(TECH, C25='exhaustive crash-point and fault enumeration on the real code: every prefix and torn write of the recorded file system history, every write failing, every exception point, followed by all later runs',
            C08='explicit-state search over all histories of calls up to the depth bound on the real objects, caches and hash orders',
            C21='explicit-state search over all histories of layer/model operations up to the depth bound on the real objects, compared with a history-free reference')
NOTES['C25'] = ('Complete over the crash points, torn-write classes (thorough: every byte), second-run crash points and exception points of the recorded histories within the stated argument sets. '
                'Assumes completed operations are durable in order (process interruption, not power loss reordering). The recorded history is validated by replaying it to the actual files.')
