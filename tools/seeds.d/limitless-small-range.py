prop = "P05"
needs = "a joint that is limitless although its limits span less than 360 degrees"
breaks = "the limits of the joint stay as they are instead of becoming -pi and pi"
edits = [("VirtualRobot/XML/RobotIO.cpp", "(unit.toDegree(jointLimitHi) - unit.toDegree(jointLimitLo) != 360)", "(unit.toDegree(jointLimitHi) - unit.toDegree(jointLimitLo) > 360)")]
demo = r'''
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/Nodes/RobotNode.h>
#include <iostream>
#include <cmath>
using namespace VirtualRobot;
int main()
{
    auto r = RobotIO::createRobotFromString("<Robot Type='r' RootNode='a'><RobotNode name='a'><Joint type='revolute'><Axis x='0' y='0' z='1'/>"
        "<Limits unit='degree' lo='-90' hi='90' limitless='true'/></Joint></RobotNode></Robot>");
    auto n = r->getRobotNode("a");
    std::cout << n->getJointLimitLo() << " .. " << n->getJointLimitHi() << std::endl;
    return n->isLimitless() && std::abs(n->getJointLimitLo() + M_PI) < 1e-3 && std::abs(n->getJointLimitHi() - M_PI) < 1e-3 ? 0 : 1;
}
'''
libs = "V"
