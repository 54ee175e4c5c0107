"""Reference descriptions of the hangar vehicles.

Each text is the shape a vehicle must have as a function of its parameters, written
with the library's own components.  `Ref(**values).vehicle()` describes the vehicle for one
set of parameter values.
"""

HEAD = '''
from copy import copy, deepcopy
from scipy.optimize import bisect
from hypervehicle.components import Wing, Fin, RevolvedComponent, SweptComponent, CompositeComponent, common
from hypervehicle.components.common import uniform_thickness_function, OgiveNose
from hypervehicle.geometry import Bezier, Line, Polyline, Arc
from hypervehicle.geometry.geometry import ReversedPath
from hypervehicle.transformations import CART3D
'''

D21 = '''
class Ref:
    def __init__(self, **values):
        for k in values:
            setattr(self, k, values[k])
    def vehicle(self):
        d21 = Vehicle()
        d21.configure(verbosity=0)
        n = Vector3(x=0, y=0)
        b0 = Vector3(x=0, y=self.R_b)
        b1 = b0 - Vector3(x=self.L_b, y=0)
        b2 = b1 - Vector3(x=0, y=self.R_b)
        bL0 = Line(n, b0)
        bL1 = Line(b0, b1)
        bL2 = Line(b1, b2)
        fuseline = Polyline([bL0, bL1, bL2])
        fuselage = RevolvedComponent(revolve_line=fuseline, stl_resolution=20)
        d21.add_component(fuselage)
        shift = Vector3(x=-0.1, y=0.0)
        tip = Vector3(x=0.15 * self.L_b, y=0) + shift
        top = Vector3(x=0.0, y=1 * self.R_b) + shift
        mid_cp = Vector3(x=0.0, y=0.3 * self.R_b) + shift
        front_bz = Bezier([tip, mid_cp, top])
        back_cap = Line(p0=top, p1=Vector3(x=-0.5, y=0.0) + shift)
        noseline = Polyline([front_bz, back_cap])
        nose = RevolvedComponent(revolve_line=noseline, stl_resolution=20)
        d21.add_component(nose)
        wing_thickness = 0.15 * self.R_b
        wing_span = self.W_w
        flap_length = 0.1 * self.L_w
        wing_LE_shift = Vector3(x=0.3, y=0)
        wing_tip = Vector3(x=0.0, y=0.0)
        A0 = wing_tip - Vector3(x=self.L_w, y=0)
        A1 = Vector3(x=A0.x + 0.6 * self.L_w, y=0)
        TT = Vector3(x=A0.x + self.L_w, y=0) - wing_LE_shift
        B0 = Vector3(x=A0.x, y=wing_span)
        B1 = Vector3(x=A1.x, y=0.5 * B0.y)
        B2 = Vector3(x=TT.x, y=0.15 * wing_span)
        B0B1 = Line(p0=B0, p1=B1)
        a = B1
        b = Vector3(x=0.5 * (B1.x + B2.x), y=B1.y)
        c = B2
        B1B2 = Bezier([a, b, c])
        B2TT = Line(p0=B2, p1=TT)
        Line_B0TT = Polyline([B0B1, B1B2, B2TT])

        def local_ws(x):
            func = lambda t: Line_B0TT(t).x - x
            t = bisect(func, 0.0, 1.0)
            return Line_B0TT(t).y

        def wing_tf_top(x, y, z=0):
            lws = local_ws(x)
            if lws == 0:
                lws = 0.001
            thickener = 0.5 * (1 - y / lws)
            return Vector3(x=0, y=0, z=-wing_thickness / 2 - thickener)

        def wing_tf_bot(x, y, z=0):
            return Vector3(x=0, y=0, z=wing_thickness / 2)
        wing = Wing(A0=A0, A1=A1, TT=TT, B0=B0, Line_B0TT=Line_B0TT, top_tf=wing_tf_top, bot_tf=wing_tf_bot, flap_length=flap_length, flap_angle=np.deg2rad(self.flap_angle), stl_resolution=self.wing_stl_res)
        d21.add_component(wing, reflection_axis='y')
        fin_height = 0.15 * self.W_w
        fin_thickness = wing_thickness
        fin_length = self.L_b - self.L_w
        p0 = b2
        p1 = p0 + Vector3(x=0, y=fin_height)
        p2 = p1 + Vector3(x=0.4 * fin_length, y=0)
        p3 = p0 + Vector3(x=fin_length, y=0)

        def fin_thickness_function_top(x, y, z=0):
            return Vector3(x=0.0, y=0.0, z=-fin_thickness / 2)

        def fin_thickness_function_bot(x, y, z=0):
            return Vector3(x=0.0, y=0.0, z=fin_thickness / 2)
        offset_func = lambda x, y, z: Vector3(x=0, y=0, z=-0.95 * self.R_b)
        tail = Fin(p0=p0, p1=p1, p2=p2, p3=p3, offset_func=offset_func, fin_thickness=fin_thickness, fin_angle=np.deg2rad(-90), top_thickness_function=fin_thickness_function_top, bot_thickness_function=fin_thickness_function_bot, stl_resolution=self.te_fin_stl_res)
        d21.add_component(tail)
        fin_height = 0.45 * self.W_w
        fin_thickness = wing_thickness
        fin_length = 1.3 * (self.L_b - self.L_w)
        te_wing_o = b2
        p0 = te_wing_o
        p1 = p0 + Vector3(x=0, y=fin_height)
        p2 = p1 + Vector3(x=fin_length, y=0)
        p3 = p0 + Vector3(x=fin_length, y=0)
        tew1 = Fin(p0=p0, p1=p1, p2=p2, p3=p3, fin_thickness=fin_thickness, fin_angle=np.deg2rad(0), top_thickness_function=fin_thickness_function_top, bot_thickness_function=fin_thickness_function_bot, stl_resolution=self.te_fin_stl_res)
        d21.add_component(tew1)
        tew2 = Fin(p0=p0, p1=p1, p2=p2, p3=p3, fin_thickness=fin_thickness, fin_angle=np.deg2rad(180), top_thickness_function=fin_thickness_function_top, bot_thickness_function=fin_thickness_function_bot, stl_resolution=self.te_fin_stl_res)
        d21.add_component(tew2)
        return d21
'''

FALCON9 = '''
class Ref:
    def __init__(self, **values):
        for k in values:
            setattr(self, k, values[k])
    def vehicle(self):
        falcon9 = Vehicle()
        falcon9.configure(verbosity=0)
        x_o = -np.sqrt((self.r_o - self.r_n) ** 2 - (self.r_o - self.h) ** 2)
        y_t = self.r_n * (self.r_o - self.h) / (self.r_o - self.r_n)
        x_t = x_o - np.sqrt(self.r_n ** 2 - y_t ** 2)
        x_a = x_o - self.r_n
        a_o = Vector3(-x_t, y_t)
        b_o = Vector3(0, self.h)
        c_o = Vector3(0, -self.r_o + self.h)
        ogive_arc = Arc(a_o, b_o, c_o)
        a_n = Vector3(-x_a, 0)
        b_n = a_o
        c_n = Vector3(-x_o, 0)
        nose_arc = Arc(a_n, b_n, c_n)
        f0 = b_o
        f1 = f0 - Vector3(self.f_L, 0)
        fairing_line = Line(f0, f1)
        r_b = self.D / 2
        fb0 = f1
        fb1 = Vector3(f1.x - 0.1 * self.f_L, r_b)
        fb2 = Vector3(f1.x - 0.3 * self.f_L, 0)
        fb_line = Polyline([Line(fb0, fb1), Line(fb1, fb2)])
        fairing_line = Polyline([nose_arc, ogive_arc, fairing_line, fb_line])
        fairing = RevolvedComponent(revolve_line=fairing_line, stl_resolution=100)
        falcon9.add_component(fairing)
        b00 = Vector3(f1.x, 0)
        b0 = Vector3(f1.x, r_b)
        b1 = b0 - Vector3(self.L_b, 0)
        body_cap_line = Line(b00, b0)
        body_line = Line(b0, b1)
        bb0 = b1
        bb1 = Vector3(bb0.x, 0)
        base_line = Line(bb0, bb1)
        line = Polyline([body_cap_line, body_line, base_line])
        fuselage = RevolvedComponent(revolve_line=line, stl_resolution=50)
        falcon9.add_component(fuselage)
        return falcon9
'''

FINNER = '''
class Ref:
    def __init__(self, **values):
        for k in values:
            setattr(self, k, values[k])
    def vehicle(self):
        finner = Vehicle()
        finner.configure(verbosity=0)
        origin = Vector3(0, 0, 0)
        nose_base = origin + Vector3(x=self.nose_length, y=self.diameter / 2)
        rocket_base = origin + Vector3(x=self.total_length, y=self.diameter / 2)
        nose_line = Line(p0=origin, p1=nose_base)
        fuselage_line = Line(p0=nose_base, p1=rocket_base)
        fuselage_base_line = Line(p0=rocket_base, p1=rocket_base - Vector3(x=0, y=rocket_base.y))
        nose = RevolvedComponent(nose_line)
        fuselage_outer = RevolvedComponent(fuselage_line)
        fuselage_base = RevolvedComponent(fuselage_base_line)
        fuselage = CompositeComponent(stl_resolution=8, name='fuselage')
        fuselage.add_component(nose)
        fuselage.add_component(fuselage_outer)
        fuselage.add_component(fuselage_base)
        a = Vector3(x=0, y=self.fin_length)
        b = Vector3(x=0, y=0)
        c = Vector3(x=-0.5 * self.max_fin_thickness, y=0)
        d = Vector3(x=0.5 * self.max_fin_thickness, y=0)
        cs1 = [Line(a, d), Line(d, b), Line(b, c), Line(c, a)]
        cs2 = [line + Vector3(x=0, y=0, z=self.fin_height) for line in cs1]
        fin = SweptComponent(cross_sections=[cs1, cs2], stl_resolution=4)
        tf = [('rotate', 90, 'z'), ('translate', Vector3(x=self.total_length, y=0, z=self.diameter / 2)), None]
        finner.add_component(fuselage)
        for i in range(4):
            angle = i * 90
            tf[2] = ('rotate', angle, 'x')
            finner.add_component(deepcopy(fin), transformations=copy(tf), name=f'fin_{i + 1}')
        return finner
'''

HIFIRE4 = '''
class Ref:
    def __init__(self, **values):
        for k in values:
            setattr(self, k, values[k])
    def vehicle(self):
        hifire4 = Vehicle()
        hifire4.configure(verbosity=0)
        L_t = self.L_n + self.L_b
        rho = (self.R ** 2 + self.L_n ** 2) / (2 * self.R)
        y_o = lambda x: round(np.sqrt(rho ** 2 - (self.L_n - x) ** 2) + self.R - rho, 6)
        a_o = Vector3(x=0, y=0)
        b_o = Vector3(x=-self.L_n, y=y_o(self.L_n))
        c_o = Vector3(x=b_o.x, y=b_o.y - rho)
        ogive_arc = Arc(a_o, b_o, c_o)
        b0 = b_o
        b1 = b0 - Vector3(x=self.L_b, y=0)
        b2 = b1 - Vector3(x=0, y=self.R)
        bL1 = Line(b0, b1)
        bL2 = Line(b1, b2)
        fuseline = Polyline([ogive_arc, bL1, bL2])

        def curv_x(x, y):
            return self.x_curve_mult * 0.05 * x ** 2

        def curv_xd(x, y):
            return self.x_curve_mult * 0.05 * 2 * x

        def curv_y(x, y):
            return self.y_curve_mult * 0.1 * y ** 2

        def curv_yd(x, y):
            return self.y_curve_mult * 0.1 * 2 * y
        curvatures = [('x', curv_x, curv_xd), ('y', curv_y, curv_yd)]
        fuselage = RevolvedComponent(revolve_line=fuseline, stl_resolution=20)
        wing_L = 0.8 * L_t
        wing_thickness = 0.25 * self.R
        wing_span = 3.5 * self.R
        flap_length = 0.1 * L_t
        flap_angle = 0
        wing_LE_shift = Vector3(x=0.3, y=0)
        A0 = a_o - Vector3(x=wing_L, y=0)
        A1 = Vector3(x=A0.x + 0.5 * wing_L, y=0)
        TT = Vector3(x=A0.x + wing_L, y=0) - wing_LE_shift
        B0 = Vector3(x=A0.x, y=wing_span)
        B1 = Vector3(x=A1.x, y=0.95 * B0.y)
        B2 = Vector3(x=TT.x, y=0.15 * wing_span)
        B0B1 = Line(p0=B0, p1=B1)
        B1B2 = Line(p0=B1, p1=B2)
        B2TT = Line(p0=B2, p1=TT)
        Line_B0TT = Polyline([B0B1, B1B2, B2TT])
        wing = Wing(A0=A0, A1=A1, TT=TT, B0=B0, Line_B0TT=Line_B0TT, top_tf=common.uniform_thickness_function(wing_thickness, 'top'), bot_tf=common.uniform_thickness_function(wing_thickness, 'bot'), flap_length=flap_length, flap_angle=np.deg2rad(flap_angle), stl_resolution=3)
        fin_height = self.R
        fin_thickness = wing_thickness
        fin_length = 0.2 * wing_L
        p0 = A0 - Vector3(x=flap_length, y=0)
        p1 = p0 + Vector3(x=0, y=fin_height)
        p2 = p1 + Vector3(x=0.5 * fin_length, y=-0.5 * fin_height)
        p3 = p0 + Vector3(x=fin_length, y=0)
        p0 += Vector3(x=0, y=-curv_x(p0.x, p0.y))
        p1 += Vector3(x=0, y=-curv_x(p1.x, p1.y))
        p2 += Vector3(x=0, y=-curv_x(p2.x, p2.y))
        p3 += Vector3(x=0, y=-curv_x(p3.x, p3.y))
        offset1 = lambda x, y, z: Vector3(x=0, y=wing_span)
        offset2 = lambda x, y, z: Vector3(x=0, y=-wing_span)
        offset3 = lambda x, y, z: Vector3(x=0, y=0, z=-0.95 * self.R)
        stl_res = 3
        fin1 = Fin(p0=p0, p1=p1, p2=p2, p3=p3, offset_func=offset1, fin_thickness=fin_thickness, fin_angle=np.deg2rad(-90), top_thickness_function=common.uniform_thickness_function(fin_thickness, 'top'), bot_thickness_function=common.uniform_thickness_function(fin_thickness, 'bot'), rudder_type='sharp', rudder_length=fin_thickness, stl_resolution=stl_res)
        fin2 = Fin(p0=p0, p1=p1, p2=p2, p3=p3, offset_func=offset2, fin_thickness=fin_thickness, fin_angle=np.deg2rad(-90), top_thickness_function=common.uniform_thickness_function(fin_thickness, 'top'), bot_thickness_function=common.uniform_thickness_function(fin_thickness, 'bot'), rudder_type='sharp', rudder_length=fin_thickness, stl_resolution=stl_res)
        fin3 = Fin(p0=p0, p1=p1, p2=p2, p3=p3, offset_func=offset3, fin_thickness=fin_thickness, fin_angle=np.deg2rad(-90), top_thickness_function=common.uniform_thickness_function(fin_thickness, 'top'), bot_thickness_function=common.uniform_thickness_function(fin_thickness, 'bot'), rudder_type='sharp', rudder_length=fin_thickness, stl_resolution=stl_res)
        hifire4.add_component(fuselage, curvatures=curvatures)
        hifire4.add_component(wing, reflection_axis='y', curvatures=curvatures)
        hifire4.add_component(fin1)
        hifire4.add_component(fin2)
        hifire4.add_component(fin3)
        return hifire4
'''

HIFIRE8 = '''
def leading_edge_width_function(r):
    temp = Bezier([Vector3(x=0.0, y=0.01), Vector3(x=0.5, y=0.1), Vector3(x=1.0, y=0.01)])
    le_width = temp(r).y
    return le_width
class Ref:
    def __init__(self, **values):
        for k in values:
            setattr(self, k, values[k])
    def vehicle(self):
        hifire8 = Vehicle()
        hifire8.configure(verbosity=0)
        fuse_slope = np.arctan((self.R_base - self.R_nose) / self.L)
        Xn = self.L
        X1 = 1 * self.L
        X2 = 0.0
        X3 = -self.nozzle_length
        Rn = self.R_nose
        R1 = self.R_base - X1 * np.tan(fuse_slope)
        R2 = self.R_base - X2 * np.tan(fuse_slope)
        R3 = R2
        fuse_line = Polyline([Line(p0=Vector3(X1, R1), p1=Vector3(X2, R2)), Line(p0=Vector3(X2, R2), p1=Vector3(X3, R3)), Line(p0=Vector3(X3, R3), p1=Vector3(X3, 0))])
        fuselage_0 = RevolvedComponent(fuse_line)
        fuse_base_line = Line(p0=Vector3(X1, 0), p1=Vector3(X1, R1))
        fuselage_1 = RevolvedComponent(fuse_base_line)
        fuselage = CompositeComponent(stl_resolution=8)
        fuselage.add_component(fuselage_0)
        fuselage.add_component(fuselage_1)
        fin_length = 0.4
        fin_height = 0.4 * fin_length
        fin_thickness = 0.02 * fin_length
        fin_angle = np.deg2rad(90 - 45)

        def eval_r_at_x(x):
            return self.R_base - x * np.tan(fuse_slope)
        p0 = Vector3(x=0, y=eval_r_at_x(0))
        p1 = Vector3(x=0.2 * fin_length, y=eval_r_at_x(0.2 * fin_length) + fin_height)
        p2 = Vector3(x=0.7 * fin_length, y=eval_r_at_x(0.7 * fin_length) + fin_height)
        p3 = Vector3(x=fin_length, y=eval_r_at_x(fin_length))
        fin1 = Fin(p0=p0, p1=p1, p2=p2, p3=p3, fin_thickness=fin_thickness, fin_angle=fin_angle, top_thickness_function=common.uniform_thickness_function(fin_thickness, 'top'), bot_thickness_function=common.uniform_thickness_function(fin_thickness, 'bot'), LE_wf=leading_edge_width_function, mirror=False, stl_resolution=3)
        fin2 = Fin(p0=p0, p1=p1, p2=p2, p3=p3, fin_thickness=fin_thickness, fin_angle=fin_angle + np.deg2rad(90), top_thickness_function=common.uniform_thickness_function(fin_thickness, 'top'), bot_thickness_function=common.uniform_thickness_function(fin_thickness, 'bot'), LE_wf=leading_edge_width_function, mirror=False, stl_resolution=3)
        fin3 = Fin(p0=p0, p1=0.5 * p1, p2=0.5 * p2, p3=p3, fin_thickness=fin_thickness, fin_angle=np.deg2rad(-90), top_thickness_function=common.uniform_thickness_function(fin_thickness, 'top'), bot_thickness_function=common.uniform_thickness_function(fin_thickness, 'bot'), LE_wf=leading_edge_width_function, mirror=False, stl_resolution=3)
        wing_L = 1.3
        wing_thickness = 0.04
        wing_width = 0.4
        wing_origin = 0.2
        flap_length = 0.2
        A0 = Vector3(x=wing_origin, y=0)
        A1 = Vector3(x=A0.x + 0.5 * wing_L, y=0)
        TT = Vector3(x=A0.x + wing_L, y=0)
        B0 = Vector3(x=A0.x, y=wing_width)
        B1 = Vector3(x=A0.x + 0.1 * wing_L, y=B0.y)
        B2 = Vector3(x=A1.x, y=0.5 * wing_width)
        B3 = Vector3(x=TT.x, y=0.13 * wing_width)
        B0B1 = Line(p0=B0, p1=B1)
        B1B2 = Line(p0=B1, p1=B2)
        B2B3 = Line(p0=B2, p1=B3)
        B3TT = Line(p0=B3, p1=TT)
        Line_B0TT = Polyline([B0B1, B1B2, B2B3, B3TT])
        wing = Wing(A0=A0, A1=A1, TT=TT, B0=B0, Line_B0TT=Line_B0TT, top_tf=common.uniform_thickness_function(wing_thickness, 'top'), bot_tf=common.uniform_thickness_function(wing_thickness, 'bot'), LE_wf=leading_edge_width_function, flap_length=flap_length, stl_resolution=4)
        L_n = 0.5
        r_b = eval_r_at_x(Xn)
        t_n = 0.005
        w_n = 0.15
        side_theta = np.arctan((r_b - 0.5 * w_n) / L_n)
        A0n = Vector3(x=Xn, y=0)
        A1n = Vector3(x=Xn + 0.5 * L_n, y=0)
        TTn = Vector3(x=Xn + L_n, y=0)
        B0n = Vector3(x=A0n.x, y=r_b)
        B1n = Vector3(x=A1n.x, y=r_b - (A1n.x - Xn) * np.tan(side_theta))
        B2n = Vector3(x=TTn.x, y=0.5 * w_n)
        B0B1n = Line(p0=B0n, p1=B1n)
        B1B2n = Line(p0=B1n, p1=B2n)
        B2TTn = Line(p0=B2n, p1=TTn)
        Line_B0TTn = Polyline([B0B1n, B1B2n, B2TTn])

        def nose_tf_top(x, y, z=0):
            circular_weighting = 1 - 1 / L_n * (x - Xn)
            flat_weighting = 1 - circular_weighting
            z_circle = np.sqrt(r_b ** 2 - y ** 2)
            z_flat = t_n
            z = circular_weighting * z_circle + flat_weighting * z_flat
            return Vector3(x=0, y=0, z=-z)

        def nose_tf_bot(x, y, z=0):
            circular_weighting = 1 - 1 / L_n * (x - Xn)
            flat_weighting = 1 - circular_weighting
            z_circle = np.sqrt(r_b ** 2 - y ** 2)
            z_flat = t_n
            z = circular_weighting * z_circle + flat_weighting * z_flat
            return Vector3(x=0, y=0, z=z)
        nose = Wing(A0=A0n, A1=A1n, TT=TTn, B0=B0n, Line_B0TT=Line_B0TTn, top_tf=nose_tf_top, bot_tf=nose_tf_bot, LE_wf=leading_edge_width_function, LE_type='FLAT', stl_resolution=4)
        hifire8.add_component(fuselage, name='fuselage')
        hifire8.add_component(wing, reflection_axis='y', name='wing')
        hifire8.add_component(nose, reflection_axis='y', name='nose')
        hifire8.add_component(fin1, name='fin1')
        hifire8.add_component(fin2, name='fin2')
        hifire8.add_component(fin3, name='fin3')
        return hifire8
'''

HTV = '''
class Ref:
    def __init__(self, **values):
        for k in values:
            setattr(self, k, values[k])
    def vehicle(self):
        htv = Vehicle()
        htv.configure(verbosity=0)
        A0 = Vector3(x=0, y=0)
        A1 = Vector3(x=0.15 * self.L, y=0)
        TT = Vector3(x=self.L, y=0)
        B0 = Vector3(x=0, y=self.body_width / 2)
        B1 = Vector3(x=A1.x, y=B0.y)
        B0B1 = Line(p0=B0, p1=B1)
        B1TT = Line(p0=B1, p1=TT)
        Line_B0TT = Polyline([B0B1, B1TT])

        def get_local_width(x):
            func = lambda t: Line_B0TT(t).x - x
            t = bisect(func, 0.0, 1.0)
            return 2 * Line_B0TT(t).y

        def wing1_tf_top(x, y, z=0):
            local_width = get_local_width(x)
            if y < 0.5 * (local_width - 2 * self.t_LE):
                z_val = 0.5 * (self.h - self.t_LE) * np.cos(2 * np.pi * y / (local_width - 2 * self.t_LE)) + 0.5 * (self.h + self.t_LE)
            elif y == 0.5 * (local_width - 2 * self.t_LE):
                z_val = self.t_LE
            else:
                z_val = self.t_LE
            z_val *= self.L - x + 0.05
            return Vector3(x=0, y=0, z=-z_val)

        def wing1_tf_bot(x, y, z=0):
            z_val = 0.2 * self.t_LE
            return Vector3(x=0, y=0, z=z_val)

        def lewf(r):
            le_width = 0.01
            return le_width
        wing = Wing(A0=A0, A1=A1, TT=TT, B0=B0, Line_B0TT=Line_B0TT, top_tf=wing1_tf_top, bot_tf=wing1_tf_bot, LE_wf=lewf, stl_resolution=5)
        htv.add_component(wing, reflection_axis='y')
        length_scaler = self.L / self.L_nom
        width_scaler = self.body_width / self.body_width_nom
        flap_length = 0.2 * length_scaler
        flap_gap = 0.01 * width_scaler
        offset = 0.1 * self.t_LE
        A0f = Vector3(x=flap_length, y=0 + 0.5 * flap_gap)
        A1f = Vector3(x=flap_length + 0.05 * self.L, y=0 + 0.5 * flap_gap)
        TTf = Vector3(x=flap_length + 0.1 * self.L, y=0 + 0.5 * flap_gap)
        B0f = Vector3(x=flap_length, y=0.8 * self.body_width / 2 + 0.5 * flap_gap)
        B1f = Vector3(x=A1f.x, y=0.5 * B0f.y)
        B0B1f = Line(p0=B0f, p1=B1f)
        B1TTf = Line(p0=B1f, p1=TTf)
        Line_B0TTf = Polyline([B0B1f, B1TTf])

        def wing2_tf_top(x, y, z=0):
            return Vector3(x=0, y=0, z=-self.t_LE - offset)

        def wing2_tf_bot(x, y, z=0):
            return Vector3(x=0, y=0, z=0.2 * self.t_LE - offset)
        flap_wing = Wing(A0=A0f, A1=A1f, TT=TTf, B0=B0f, Line_B0TT=Line_B0TTf, top_tf=wing2_tf_top, bot_tf=wing2_tf_bot, flap_length=flap_length, flap_angle=np.deg2rad(self.flap_angle), stl_resolution=5)
        htv.add_component(deepcopy(flap_wing))
        htv.add_component(flap_wing, reflection_axis='y')
        return htv
'''

REFEX = '''
def leading_edge_width_function(r):
    temp = Bezier([Vector3(x=0.0, y=0.01), Vector3(x=0.5, y=0.05), Vector3(x=1.0, y=0.01)])
    le_width = temp(r).y
    return le_width
class Ref:
    def __init__(self, **values):
        for k in values:
            setattr(self, k, values[k])
    def vehicle(self):
        refex = Vehicle()
        refex.configure(verbosity=0)
        nose = OgiveNose(h=self.h, r_n=self.r_n, r_o=self.r_o, L_o=self.L_o, stl_resolution=50)
        if self.generate_fuselage:
            refex.add_component(nose)
        f1 = Vector3(0, self.h) - Vector3(self.L_o, 0)
        b00 = Vector3(0, 0)
        b0 = Vector3(0, f1.y)
        b1 = b0 - Vector3(self.L_b, 0)
        body_cap_line = Line(b00, b0)
        body_top_line = Line(b0, b1)
        bb0 = b1
        bb1 = Vector3(bb0.x, 0)
        base_line = Line(bb0, bb1)
        body_line = Polyline([body_cap_line, body_top_line, base_line])
        body_fuse = RevolvedComponent(revolve_line=body_line, stl_resolution=50)
        if self.generate_fuselage:
            refex.add_component(body_fuse)
        fin_height = 1.3 * self.h
        fin_length = 1.3 * fin_height
        shift_in = Vector3(x=0, y=-0.02 * fin_height)
        p0 = f1 - Vector3(x=fin_length, y=0) + shift_in + self.cannard_shift
        p1 = p0 + Vector3(x=0.0, y=fin_height) + shift_in
        p2 = p1 + Vector3(x=0.3 * fin_length, y=0) + shift_in
        p3 = f1 + shift_in + self.cannard_shift
        pivot_point = Vector3(x=0.5 * (p0.x + p3.x), y=p0.y)
        if self.generate_canards:
            for i in range(2):
                angle = np.deg2rad(i / 2 * 360)
                fin = Fin(p0=p0, p1=p1, p2=p2, p3=p3, fin_thickness=self.fin_thickness, fin_angle=angle, top_thickness_function=uniform_thickness_function(self.fin_thickness, 'top'), bot_thickness_function=uniform_thickness_function(self.fin_thickness, 'bot'), LE_wf=leading_edge_width_function, pivot_angle=np.deg2rad((-1) ** i * self.canard_angle), pivot_point=pivot_point, rudder_type='sharp', rudder_length=self.fin_thickness, stl_resolution=3)
                refex.add_component(fin)
        wing_thickness = 3 * self.fin_thickness
        flap_length = 0.1 * self.wing_length
        A0 = Vector3(x=bb0.x + flap_length, y=0)
        TT = A0 + Vector3(x=self.wing_length, y=0)
        A1 = Vector3(x=0.5 * (A0.x + TT.x), y=0)
        B0 = A0 + Vector3(x=0, y=self.wing_span + self.h)
        B1 = B0 + Vector3(x=0.5 * self.wing_length - flap_length, y=0)
        B0B1 = Line(p0=B0, p1=B1)
        B1TT = Line(p0=B1, p1=TT)
        Line_B0TT = Polyline([B0B1, B1TT])

        def wing2_tf_top(x, y, z=0):
            return Vector3(x=0, y=0, z=self.h - wing_thickness)

        def wing2_tf_bot(x, y, z=0):
            return Vector3(x=0, y=0, z=self.h)
        if self.generate_wings:
            wing = Wing(A0=A0, A1=A1, TT=TT, B0=B0, Line_B0TT=Line_B0TT, top_tf=wing2_tf_top, bot_tf=wing2_tf_bot, LE_wf=leading_edge_width_function, flap_length=flap_length, stl_resolution=3)
            refex.add_component(wing, reflection_axis='y')
        if self.generate_fuselage:
            body_transition = self._define_fuselage(x_ref=bb1.x)
            refex.add_component(body_transition)
        tail_length = 1.2 * self.tail_height
        rudder_length = self.tail_thickness
        shift_in = Vector3(x=0, y=-0.02 * self.tail_height)
        t0 = bb0 + shift_in + Vector3(x=2 * rudder_length, y=0)
        t1 = t0 + Vector3(x=0, y=self.tail_height) + shift_in
        t2 = t1 + Vector3(x=0.4 * tail_length, y=0) + shift_in
        t3 = t0 + Vector3(x=tail_length, y=0) + shift_in
        if self.generate_tail:
            tail = Fin(p0=t0, p1=t1, p2=t2, p3=t3, fin_thickness=self.tail_thickness, fin_angle=np.deg2rad(-90), top_thickness_function=uniform_thickness_function(self.tail_thickness, 'top'), bot_thickness_function=uniform_thickness_function(self.tail_thickness, 'bot'), LE_wf=leading_edge_width_function, rudder_type='sharp', rudder_length=rudder_length, stl_resolution=3)
            refex.add_component(tail)
        refex.add_vehicle_transformations(CART3D)
        return refex
    def _define_fuselage(self, x_ref):
        x1 = x_ref
        n1 = Line(p0=Vector3(x=x1, y=self.h, z=0.0), p1=Vector3(x=x1, y=self.h, z=self.h))
        s1 = Line(p0=Vector3(x=x1, y=-self.h, z=0.0), p1=Vector3(x=x1, y=-self.h, z=self.h))
        e1 = Line(p0=Vector3(x=x1, y=-self.h, z=self.h), p1=Vector3(x=x1, y=self.h, z=self.h))
        w1 = Line(p0=Vector3(x=x1, y=-self.h, z=0.0), p1=Vector3(x=x1, y=self.h, z=0.0))
        cs1 = [n1, ReversedPath(e1), ReversedPath(s1), w1]
        x2 = x_ref + 0.9 * self.wing_length
        n2 = Line(p0=Vector3(x=x2, y=self.h, z=0.0), p1=Vector3(x=x2, y=self.h, z=self.h))
        s2 = Line(p0=Vector3(x=x2, y=-self.h, z=0.0), p1=Vector3(x=x2, y=-self.h, z=self.h))
        e2 = Line(p0=Vector3(x=x2, y=-self.h, z=self.h), p1=Vector3(x=x2, y=self.h, z=self.h))
        w2 = Line(p0=Vector3(x=x2, y=-self.h, z=0.0), p1=Vector3(x=x2, y=self.h, z=0.0))
        cs2 = [n2, ReversedPath(e2), ReversedPath(s2), w2]
        x3 = x_ref + 1.3 * self.wing_length
        centre = Vector3(x=x3, y=0, z=0)
        arc_s = Arc(a=Vector3(x=x3, y=-self.h, z=0), b=Vector3(x=x3, y=-self.h * np.cos(np.deg2rad(60)), z=self.h * np.sin(np.deg2rad(60))), c=centre)
        arc_e = Arc(a=Vector3(x=x3, y=-self.h * np.cos(np.deg2rad(60)), z=self.h * np.sin(np.deg2rad(60))), b=Vector3(x=x3, y=self.h * np.cos(np.deg2rad(60)), z=self.h * np.sin(np.deg2rad(60))), c=centre)
        arc_n = Arc(a=Vector3(x=x3, y=self.h, z=0), b=Vector3(x=x3, y=self.h * np.cos(np.deg2rad(60)), z=self.h * np.sin(np.deg2rad(60))), c=centre)
        west = Line(p0=arc_s.a, p1=arc_n.a)
        cs3 = [arc_n, ReversedPath(arc_e), ReversedPath(arc_s), west]
        sections = [cs1, cs2, cs3]
        body_transition = SweptComponent(cross_sections=sections, stl_resolution=20)
        return body_transition
'''

WAVERIDER = '''
class Ref:
    def __init__(self, **values):
        for k in values:
            setattr(self, k, values[k])
    zero_offset = 1
    curve_zero = 5
    def vehicle(self):
        waverider = Vehicle()
        waverider.configure(verbosity=0)
        self._create_fuselage(waverider)
        self._create_wings(waverider)
        self._create_flaps(waverider)
        self._create_fin(waverider)
        waverider.add_vehicle_transformations(CART3D)
        adjusted_aoa = self._adjust_aoa(self.aoa)
        waverider.add_vehicle_transformations(('rotate', -adjusted_aoa, 'z'))
        if self.densities:
            waverider.analyse_after_generating(self.densities)
        return waverider
    def _create_fuselage(self, waverider):
        self.fuselage_revolve_line = Bezier([Vector3(x=0.0, y=0.0), Vector3(x=self.f1x, y=self.f1y), Vector3(x=self.length / 2, y=self.f2y), Vector3(x=self.length - self.f1x, y=self.f1y), Vector3(x=self.length, y=0.0)])
        fuselage = RevolvedComponent(self.fuselage_revolve_line, stl_resolution=self.fuse_stl_res)

        def modify_underside(x, y, z):
            if z > 0:
                return -Vector3(0, 0, z)
            else:
                return Vector3(0, 0, 0)
        waverider.add_component(fuselage, name='fuselage', clustering={'i_clustering_func': self._cf}, curvatures=self.curvatures, modifier_function=modify_underside)
    def _create_wings(self, waverider):
        A1 = Vector3(x=0.5 * self.length, y=0)
        TT = Vector3(x=self.length, y=0)
        B0 = Vector3(x=0, y=self.width / 2)
        p2y = max(self.p2y, self._get_local_height(self.p2x))
        p3y = max(self.p3y, self._get_local_height(self.p2x))
        Line_B0TT = Bezier([B0, Vector3(self.p2x, p2y), Vector3(self.p3x, p3y), TT])
        self.Line_B0TT = Line_B0TT
        self.thickness_contour = Bezier([Vector3(0.0, self.u1y), Vector3(self.u2x, self.u1y), Vector3(self.u3x, self.u3y), Vector3(self.width / 2, 0.0)])

        def wing1_tf_bot(x, y, z=0):
            local_width = self._get_local_width(x)
            if local_width == 0:
                s = 0
            else:
                s = y / local_width
            z_val = 0
            return Vector3(x=0, y=0, z=-z_val + self.LE_thickness / 2)
        wing = Wing(A1=A1, TT=TT, B0=B0, Line_B0TT=Line_B0TT, top_tf=self._wing1_tf_top, bot_tf=wing1_tf_bot, LE_wf=self._lewf, stl_resolution=self.wing_stl_res)
        waverider.add_component(wing, name='wings', reflection_axis='y', curvatures=self.curvatures)
    def _lewf(self, r):
        return self.le_width
    def _get_local_width(self, x):
        func = lambda t: self.Line_B0TT(t).x - x
        t = bisect(func, 0.0, 1.0)
        return self.Line_B0TT(t).y
    def _get_local_height(self, x):
        func = lambda t: self.fuselage_revolve_line(t).x - x
        t = bisect(func, 0.0, 1.0)
        return self.fuselage_revolve_line(t).y
    def _wing1_tf_top(self, x, y, z=0):
        local_width = self._get_local_width(x)
        if local_width == 0:
            s = 0
        else:
            s = y / local_width
        z_val = self.thickness_contour(s).y
        z_val *= abs(self._get_local_height(x)) / self.u1y
        return Vector3(x=0, y=0, z=-z_val - self.LE_thickness / 2)
    def _curv_x(self, x, y):
        return 5 * (self.x_curve_mult - self.curve_zero) * 0.05 * x ** 2
    def _curv_xd(self, x, y):
        return 5 * (self.x_curve_mult - self.curve_zero) * 0.05 * 2 * x
    def _curv_y(self, x, y):
        return 5 * (self.y_curve_mult - self.curve_zero) * 0.1 * y ** 2
    def _curv_yd(self, x, y):
        return 5 * (self.y_curve_mult - self.curve_zero) * 0.1 * 2 * y
    def _adjust_aoa(self, nominal_aoa):
        angle = self._curv_xd(x=self.length, y=0)
        curve_rotation = np.rad2deg(angle)
        return nominal_aoa + curve_rotation
    def _create_flaps(self, waverider):
        A0 = self.Line_B0TT(self.a0_t)
        A1 = self.Line_B0TT(self.a0_t + (self.tt_t - self.a0_t) / 2)
        TT = self.Line_B0TT(self.tt_t)
        B0 = A0 + Vector3(x=0.0, y=self.flap_height)
        cp1 = B0 + Vector3(x=self.w1x, y=self.w1y - self.zero_offset)
        cp2 = TT - Vector3(x=self.w2x, y=self.w2y - self.zero_offset)
        line_B0TT = Bezier([B0, cp1, cp2, TT])
        flap_length = A0.x
        wing = Wing(A0=A0, A1=A1, TT=TT, B0=B0, Line_B0TT=line_B0TT, top_tf=uniform_thickness_function(thickness=self.LE_thickness, side='top'), bot_tf=uniform_thickness_function(thickness=self.LE_thickness, side='bot'), flap_length=flap_length, flap_angle=self.flap_angle, LE_wf=self._lewf, close_wing=True, stl_resolution=self.wing_stl_res)
        waverider.add_component(wing, name='right_flap', curvatures=self.curvatures)
        waverider.add_component(deepcopy(wing), name='left_flap', reflection_axis='y', append_reflection=False, curvatures=self.curvatures)
    def _create_fin(self, waverider):
        fin_thickness = 0.005
        fin_height = 0.1
        fin_length = 0.3
        p0 = Vector3(x=0.0, y=0.0)
        p1 = Vector3(x=0.1 * fin_length, y=0.7 * fin_height)
        p2 = Vector3(x=0.6 * fin_length, y=fin_height)
        p3 = Vector3(x=fin_length, y=0.0)
        fin = Fin(p0=p0, p1=p1, p2=p2, p3=p3, fin_thickness=fin_thickness, fin_angle=np.deg2rad(-90), top_thickness_function=uniform_thickness_function(fin_thickness, 'top'), bot_thickness_function=uniform_thickness_function(fin_thickness, 'bot'), LE_wf=lambda r: 0.01, pivot_point=Vector3(x=0, y=0), stl_resolution=self.fin_stl_res)
        waverider.add_component(fin, name='fin', curvatures=self.curvatures)
'''

WEDGE = '''
class Ref:
    def __init__(self, **values):
        for k in values:
            setattr(self, k, values[k])
    def vehicle(self):
        wedge = Vehicle()
        wedge.configure(verbosity=0)
        NW = Vector3(x=0, y=0.5 * self.thickness)
        NE = Vector3(x=-0.5 * self.chord, y=0)
        SE = Vector3(x=0, y=-0.5 * self.thickness)
        SW = Vector3(x=0.5 * self.chord, y=0)
        sections = []
        for i in [-1, 1]:
            z_loc = 0.5 * i * self.wingspan
            axial_shift = Vector3(x=0, y=0, z=z_loc)
            sections.append([Line(p0=NW + axial_shift, p1=NE + axial_shift), Line(p0=NE + axial_shift, p1=SE + axial_shift), Line(p0=SE + axial_shift, p1=SW + axial_shift), Line(p0=SW + axial_shift, p1=NW + axial_shift)])
        fuselage = SweptComponent(cross_sections=sections, stl_resolution=10)
        wedge.add_component(fuselage)
        return wedge
'''

X43 = '''
class Ref:
    def __init__(self, **values):
        for k in values:
            setattr(self, k, values[k])
    def vehicle(self):
        x43 = Vehicle()
        x43.configure(verbosity=0)
        L_nom = 3.7
        L = self.body_length
        beta = np.deg2rad(self.body_angle)
        LE_height = 0.05 * L / L_nom
        TE_height = 0.2 * L / L_nom
        A0 = Vector3(x=0, y=0)
        A1 = Vector3(x=1.8 * L / L_nom, y=0)
        TT = Vector3(x=L, y=0)
        B0 = Vector3(x=0, y=self.body_width / 2)
        B1 = Vector3(x=A1.x, y=B0.y)
        B2 = Vector3(x=TT.x, y=0.4 * B0.y)
        B0B1 = Line(p0=B0, p1=B1)
        B1B2 = Line(p0=B1, p1=B2)
        B2TT = Line(p0=B2, p1=TT)
        Line_B0TT = Polyline([B0B1, B1B2, B2TT])
        rounding_thickness = 0.025
        p1 = Vector3(x=0, y=0, z=rounding_thickness)
        p2 = Vector3(x=0, y=0.9 * B0.y, z=p1.z)
        p3 = Vector3(x=0, y=B0.y, z=0)
        rounding_bez = Bezier([p1, p2, p3])

        def get_local_y(x):
            if x < B1.x:
                local_y = B0.y
            else:
                local_y = (x - B2.x) * (B2.y - B1.y) / (B2.x - B1.x) + B2.y
            return local_y

        def wing1_tf_top(x, y, z=0):
            z_m = -L * np.tan(beta)
            z_u = z_m - 0.5 * TE_height
            beta_u = -np.arctan((z_u + 0.5 * LE_height) / L)
            z_1 = (x - L) * np.tan(beta_u) - LE_height / 2
            local_y = get_local_y(x)
            z_2 = -(L - x) * rounding_bez(y / local_y).z
            z_val = z_1 + z_2
            return Vector3(x=0, y=0, z=z_val)

        def wing1_tf_bot(x, y, z=0):
            z_m = -L * np.tan(beta)
            z_l = z_m + 0.5 * TE_height
            beta_l = -np.arctan((z_l - 0.5 * LE_height) / L)
            z_val = (x - L) * np.tan(beta_l) + LE_height / 2
            return Vector3(x=0, y=0, z=z_val)

        def leading_edge_width_function(r):
            temp = Bezier([Vector3(x=0.0, y=0.02), Vector3(x=0.75, y=0.05), Vector3(x=1.0, y=0.05)])
            le_width = temp(r).y
            return le_width
        body = Wing(A0=A0, A1=A1, TT=TT, B0=B0, Line_B0TT=Line_B0TT, top_tf=wing1_tf_top, bot_tf=wing1_tf_bot, LE_wf=leading_edge_width_function, stl_resolution=4)
        flap_thickness = 0.03 * L / L_nom
        fA0 = Vector3(x=B0.x + self.flap_length, y=B0.y)
        fA1 = Vector3(x=A0.x + 0.5 * self.wing_length, y=get_local_y(A0.x + 0.5 * self.wing_length))
        fTT = Vector3(x=A0.x + self.wing_length, y=get_local_y(A0.x + self.wing_length))
        fB0 = Vector3(x=A0.x - self.wing_TE_back + self.flap_length, y=B0.y + self.wing_span)
        fB1 = Vector3(x=A0.x + 0.4 * self.wing_length, y=B0.y + 0.75 * self.wing_span)
        fB0B1 = Line(p0=fB0, p1=fB1)
        fB1TT = Line(p0=fB1, p1=fTT)
        Line_fB0TT = Polyline([fB0B1, fB1TT])

        def wing2_tf_top(x, y, z=0):
            z_ba = -(x - L) * np.tan(beta)
            return Vector3(x=0, y=0, z=-flap_thickness / 2 - z_ba)

        def wing2_tf_bot(x, y, z=0):
            z_ba = -(x - L) * np.tan(beta)
            return Vector3(x=0, y=0, z=flap_thickness / 2 - z_ba)
        wing = Wing(A0=fA0, A1=fA1, TT=fTT, B0=fB0, Line_B0TT=Line_fB0TT, top_tf=wing2_tf_top, bot_tf=wing2_tf_bot, flap_length=self.flap_length, flap_angle=np.deg2rad(self.flap_angle), LE_wf=leading_edge_width_function, close_wing=True)
        iA0 = A0
        iA1 = A1
        iTT = Vector3(x=0.5 * (TT.x + B1.x), y=0)
        iB0 = Vector3(x=B0.x, y=B0.y)
        iB1 = Vector3(x=B1.x, y=B1.y)
        iB2 = Vector3(x=iTT.x, y=(iTT.x - B2.x) * (B2.y - B1.y) / (B2.x - B1.x) + B2.y)
        iB0B1 = Line(p0=iB0, p1=iB1)
        iB1B2 = Line(p0=iB1, p1=iB2)
        iB2TT = Line(p0=iB2, p1=iTT)
        Line_iB0TT = Polyline([iB0B1, iB1B2, iB2TT])
        inlet_start = 0.8 * B1.x
        exit_start = 0.3 * (B1.x - B0.x)

        def inlet_tf_top(x, y, z=0):
            vehicle_z = wing1_tf_bot(x, y, z).z
            return Vector3(x=0, y=0, z=vehicle_z - 0.05)

        def inlet_tf_bot(x, y, z=0):
            vehicle_body = wing1_tf_bot(x, y, z).z
            if x < exit_start:
                z_val = self.engine_h / (exit_start - A0.x) * x
            elif x > inlet_start:
                z_val = -self.engine_h / (iTT.x - inlet_start) * (x - iTT.x)
            else:
                z_val = self.engine_h
            taper_start_pc = 0.8
            y_local = get_local_y(x)
            if y > taper_start_pc * y_local:
                z_taper = (5 * y / y_local - 4) * z_val
            else:
                z_taper = 0
            return Vector3(x=0, y=0, z=z_val + vehicle_body - z_taper + 1e-05)

        def leading_edge_width_function2(r):
            temp = Bezier([Vector3(x=0.0, y=0.001), Vector3(x=0.5, y=0.001), Vector3(x=1.0, y=0.001)])
            le_width = temp(r).y
            return le_width
        inlet = Wing(A0=iA0, A1=iA1, TT=iTT, B0=iB0, Line_B0TT=Line_iB0TT, top_tf=inlet_tf_top, bot_tf=inlet_tf_bot, LE_wf=leading_edge_width_function2, stl_resolution=4)
        fin_p3x = self.fin_length
        fin_thickness = 0.02 * L / L_nom
        fin_offset = -(fin_p3x - L) * np.tan(beta)
        y_shift = B0.y
        p0 = Vector3(x=self.rudder_length, y=fin_offset)
        p1 = Vector3(x=self.rudder_length, y=fin_offset + self.fin_height)
        p2 = Vector3(x=0.5 * fin_p3x, y=fin_offset + self.fin_height)
        p3 = Vector3(x=fin_p3x, y=fin_offset)

        def fin_offset_function(x, y, z):
            return Vector3(x=0, y=y_shift, z=0)
        fin_angle = np.deg2rad(-90)
        rudder_angle = np.deg2rad(self.rudder_angle)
        fin1 = Fin(p0=p0, p1=p1, p2=p2, p3=p3, fin_thickness=fin_thickness, fin_angle=fin_angle, top_thickness_function=common.uniform_thickness_function(fin_thickness, 'top'), bot_thickness_function=common.uniform_thickness_function(fin_thickness, 'bot'), LE_wf=leading_edge_width_function, mirror=False, rudder_type='sharp', rudder_length=self.rudder_length, rudder_angle=rudder_angle, pivot_angle=0, pivot_point=Vector3(x=0, y=0), offset_func=fin_offset_function)

        def fin_offset_function2(x, y, z):
            return Vector3(x=0, y=-y_shift, z=0)
        fin2 = Fin(p0=p0, p1=p1, p2=p2, p3=p3, fin_thickness=fin_thickness, fin_angle=fin_angle, top_thickness_function=common.uniform_thickness_function(fin_thickness, 'top'), bot_thickness_function=common.uniform_thickness_function(fin_thickness, 'bot'), LE_wf=leading_edge_width_function, mirror=False, rudder_type='sharp', rudder_length=self.rudder_length, rudder_angle=rudder_angle, pivot_angle=0, pivot_point=Vector3(x=0, y=0), offset_func=fin_offset_function2)
        x43.add_component(body, reflection_axis='y', name='body')
        x43.add_component(deepcopy(wing), name='wing1')
        x43.add_component(wing, reflection_axis='y', name='wing2')
        x43.add_component(inlet, reflection_axis='y', name='inlet')
        x43.add_component(fin1, name='fin1')
        x43.add_component(fin2, name='fin2')
        return x43
'''
