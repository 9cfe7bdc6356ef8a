prop = "P23"
needs = "limitless joints interpolated from a large positive to a large negative angle across the border"
breaks = "interpolation takes the long way round although distances assume the short one"
edits = [("MotionPlanning/CSpace/CSpace.cpp", """            value = std::fmod(value - boundLow, boundHigh - boundLow) + boundLow;
            if (value < boundLow)
            {
                value += boundHigh - boundLow;
            }
            return value;""", """            return std::fmod(value - boundLow, boundHigh - boundLow) + boundLow;""")]
libs = "M"
demo = r'''
#include <MotionPlanning/CSpace/CSpaceSampled.h>
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <iostream>
using namespace VirtualRobot;
int main()
{
    RobotPtr r = RobotIO::createRobotFromString("<Robot Type='r' RootNode='a'><RobotNode name='a'><Joint type='revolute'><Limits limitless='true' unit='radian' lo='-3.14159265' hi='3.14159265'/></Joint></RobotNode></Robot>");
    RobotNodeSetPtr ns = RobotNodeSet::createRobotNodeSet(r, "ns", std::vector<std::string>(1, "a"));
    CDManagerPtr cdm(new CDManager());
    Saba::CSpaceSampledPtr c(new Saba::CSpaceSampled(r, cdm, ns));
    Eigen::VectorXf a(1), b(1);
    a << 3.0f;
    b << -3.0f;
    float v = c->interpolate(a, b, 0.5f)[0];
    std::cout << c->calcDist(a, b) << " " << v << std::endl;
    return std::abs(v) > 3.0f ? 0 : 1;
}
'''
